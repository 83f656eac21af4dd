from core import *
import re
P = Property('C14', 'Universal integer codes')
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
P.modules = {'u': dict(text=r'''
#include <cstdint>
#include <hzip_core/utils/utils.h>
extern "C" {
uint64_t hzv_read(uint64_t n);
void hzv_write(uint64_t v, uint8_t n);
uint64_t d_log2(uint64_t n) { return hz_u64log2(n); }
void d_gamma(bin_t *r, uint64_t n) { *r = hz_elias_gamma(n); }
void d_ungamma(bin_t *r) { *r = hz_elias_gamma_inv([](uint64_t k) { return hzv_read(k); }); }
void d_unary(uint64_t n) { hz_unary_write(n, [](uint64_t v, uint8_t k) { hzv_write(v, k); }); }
uint64_t d_ununary() { return hz_unary_read([](uint8_t k) { return hzv_read(k); }); }
}
''')}


def bitlen(n):
    """number of binary digits of n"""
    r = z3.BitVecVal(0, 64)
    for i in range(64):
        r = z3.If(z3.Extract(i, i, n) == 1, z3.BitVecVal(i + 1, 64), r)
    return r


@P.unit('binary logarithm', 'd_log2', 'u')
def log2(c):
    n = c.sym('n', 64)
    c.args = [n]
    c.eng.opts['unroll'] = 80
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'floor of the logarithm, 0 for 0', t.ret == z3.If(n == 0, z3.BitVecVal(0, 64), bitlen(n) - 1))


def code(n):
    """(bits, length): L ones, a zero, the L digits of n, where L is the number of digits of n"""
    L = bitlen(n)
    ones = (z3.BitVecVal(1, 64) << L) - 1
    return (ones << (L + 1)) | n, 2 * L + 1


@P.unit('gamma code', 'd_gamma', 'u')
def gamma(c):
    n = c.sym('n', 64)
    c.assume(ULT(n, 1 << 31))
    r = c.cells('result', 16)
    c.args = [Ptr(r), n]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        bits, ln = code(n)
        c.ensure(t, 'code word', c.peek(t, Ptr(r), 64) == bits)
        c.ensure(t, 'code length', z3.ZeroExt(32, c.peek(t, Ptr(r, 8), 32)) == ln)


def bitreader(c, bits, total, exact=True):
    """hzv_read(k) returns the next k bits, most significant first"""
    c.st.ghost['pos'] = z3.BitVecVal(0, 64)

    def rd(eng, st, k):
        w = k.args[0]
        pos = st.ghost['pos']
        eng.require(st, z3.And(ULE(w, 64), ULE(pos + w, total)), 'reads no further than the code word', label='reads no further than the code word')
        st.setg('pos', z3.simplify(pos + w))
        v = z3.LShR(bits, total - pos - w) & ((z3.BitVecVal(1, 64) << w) - 1)
        return z3.simplify(v)
    rd.trust = 'the caller-supplied reader returns the next k bits of the stream'
    c.handle('hzv_read', rd)


@P.unit('reading a gamma code', 'd_ungamma', 'u')
def ungamma(c):
    n = c.sym('n', 64)
    c.assume(ULT(n, 1 << 31))
    bits, ln = code(n)
    bitreader(c, bits, ln)
    r = c.cells('result', 16)
    c.args = [Ptr(r)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the number comes back', c.peek(t, Ptr(r), 64) == n)
        c.ensure(t, 'exactly the code word is consumed', t.ghost['pos'] == ln)


@P.unit('unary code', 'd_unary', 'u')
def unary(c):
    n = c.sym('n', 64)
    c.assume(ULE(1, n))
    c.st.ghost['ones'] = z3.BitVecVal(0, 64)
    c.st.ghost['zeros'] = z3.BitVecVal(0, 64)

    def wr(eng, st, k):
        v, w = k.args
        eng.require(st, z3.And(w == 1, ULE(v, 1), st.ghost['zeros'] == 0), 'writes single bits, none after the zero', label='writes single bits, none after the zero')
        st.setg('ones', z3.If(v == 1, st.ghost['ones'] + 1, st.ghost['ones']))
        st.setg('zeros', z3.If(v == 0, st.ghost['zeros'] + 1, st.ghost['zeros']))
    wr.trust = 'the caller-supplied writer appends the bits'
    c.handle('hzv_write', wr)
    c.args = [n]

    def mem(L):
        r = {'no zero yet': L.st.ghost['zeros'] == 0}
        for i, o in enumerate(locals_(L.st, 8)):
            v = c.eng.peek(L.st, Ptr(o), 64)
            r['counted %d' % i] = z3.And(L.st.ghost['ones'] == n - v, ULE(1, v), ULE(v, n))
        return r
    c.auto(lambda L, v: {'counted': z3.And(L.st.ghost['ones'] == n - v, ULE(1, v), ULE(v, n)), 'counted up': z3.And(L.st.ghost['ones'] == v, ULT(v, n))}, hi=n, once=mem)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'n - 1 ones and a zero', z3.And(t.ghost['ones'] == n - 1, t.ghost['zeros'] == 1))


def locals_(st, size):
    """local variables of the given size held in memory by the current function"""
    out = []
    for v in st.frames[-1].env.values():
        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'stack' and not v.c and not v.ix and v.obj not in out:
            rg = st.mem[v.obj.oid].regs
            if len(rg) == 1 and rg[0].kind == 'cells' and rg[0].length == size:
                out.append(v.obj)
    return out


@P.unit('reading a unary code', 'd_ununary', 'u')
def ununary(c):
    n = c.sym('n', 64)
    c.assume(ULE(1, n))
    c.st.ghost['pos'] = z3.BitVecVal(0, 64)

    def rd(eng, st, k):
        pos = st.ghost['pos']
        eng.require(st, z3.And(k.args[0] == 1, ULT(pos, n)), 'reads single bits, none after the zero', label='reads single bits, none after the zero')
        st.setg('pos', pos + 1)
        return z3.If(ULT(pos, n - 1), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    rd.trust = 'the caller-supplied reader returns the next bit'
    c.handle('hzv_read', rd)
    c.args = []
    c.auto(lambda L, v: {'counted': z3.And(L.st.ghost['pos'] == v, ULT(v, n)), 'counted from one': z3.And(L.st.ghost['pos'] == v - 1, ULE(1, v), ULE(v, n))}, hi=n)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the number comes back', t.ret == n)
        c.ensure(t, 'exactly the code word is consumed', t.ghost['pos'] == n)


P.native = dict(src='c14.cpp', secs=2, tsecs=30)
