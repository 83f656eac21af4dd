from core import *
import re
P = Property('C05', 'Paeth differentials')
P.modules = {'p': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <CL/opencl.hpp>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/models/paeth.cpp>
using P16 = rainman::ptr<uint16_t>;
extern "C" {
void d_filter(P16 *in, P16 *out, uint64_t w, uint64_t h, uint64_t n, bool inplace, uint8_t depth) { new(out) P16(hzmodels::LinearU16PaethDifferential::cpu_filter(*in, w, h, n, inplace, depth)); }
}
''', flags=['-fno-access-control'], select=True, defines=['HZIP_ENABLE_OPENCL', 'CL_HPP_ENABLE_EXCEPTIONS'])}
Sel = z3.Select
M64, M32 = 1 << 64, 1 << 32


def predictor(X, Y, a, b, c):
    """left a, above b, above left c"""
    s = a + b
    d = z3.If(s > c, s - c, c - s)
    ad = lambda x, y: z3.If(x > y, x - y, y - x)
    da, db, dc = ad(a, d), ad(b, d), ad(c, d)
    m1 = z3.If(da < db, da, db)
    m = z3.If(m1 < dc, m1, dc)
    paeth = z3.If(da == m, a, z3.If(db == m, b, c))
    return z3.If(X == 0, z3.If(Y == 0, 0, b), z3.If(Y == 0, a, paeth))


def differential(p, t, d):
    """t - d modulo 2^depth for samples of that depth (p = 2^depth)"""
    r = p + t - d
    return z3.If(t >= d, t - d, z3.If(r < 0, r + 65536, r))


def sg(v):
    """a counter that may have run below zero"""
    return z3.If(v >= 1 << 63, v - M64, z3.If(z3.And(v >= 1 << 31, v < M32), v - M32, v))


def grid(c):
    """any sizes, any sample K = (C, Y, X)"""
    c.w, c.h, c.nch = c.sym('width', 64), c.sym('height', 64), c.sym('nchannels', 64)
    c.cap = c.sym('capacity', 64)
    c.C, c.Y, c.X = c.sym('C', 64), c.sym('Y', 64), c.sym('X', 64)
    c.eng.opts['nl'] = c.eng.opts['seed_mods'] = True
    w, h = c.w, c.h
    MUL = c.eng.uf('MUL', 2)
    c.assume(w < 1 << 31, h < 1 << 31, c.nch < 1 << 31, c.cap < 1 << 58, c.C < c.nch, c.Y < h, c.X < w)
    c.P = Pl = z3.Int('plane')          # samples in a channel
    c.YW, c.CP, c.NP = z3.Ints('YW CP NP')  # Y * w, C * w * h, nch * w * h
    c.assume(Pl >= 0, c.YW >= 0, c.CP >= 0, c.NP <= c.cap, c.CP + Pl <= c.NP, c.YW + w <= Pl, z3.Implies(c.Y == 0, c.YW == 0), z3.Implies(c.Y >= 1, c.YW >= w))
    C, Y = c.C, c.Y

    def facts(x, y, r):
        """about products x * y = r that the code forms (lemmas below)"""
        out = []
        same = lambda a, b: a.get_id() == b.get_id() or z3.is_true(z3.simplify(a == b))
        for a, b in ((x, y), (y, x)):
            if same(b, w):
                if same(a, h):
                    out.append(r == Pl)
                else:
                    out += [z3.Implies(a < Y, r + w <= c.YW), z3.Implies(a > Y, r >= c.YW + w), z3.Implies(a == Y, r == c.YW), z3.Implies(a < h, r + w <= Pl), r >= 0, z3.Implies(a >= 1, r >= w), z3.Implies(a < c.nch, r <= M32 * M32 // 4)]
            ch = None
            if same(b, h) and z3.is_app(a) and a.decl().name() == 'MUL':
                ch = a.arg(0) if same(a.arg(1), w) else a.arg(1) if same(a.arg(0), w) else None
            if z3.is_app(b) and b.decl().name() == 'MUL' and {b.arg(0).get_id(), b.arg(1).get_id()} == {w.get_id(), h.get_id()}:
                ch = a
            if ch is not None:
                out += [z3.Implies(ch < C, r + Pl <= c.CP), z3.Implies(ch > C, r >= c.CP + Pl), z3.Implies(ch == C, r == c.CP), z3.Implies(ch < c.nch, r + Pl <= c.NP)]
        return out
    c.eng.opts['mul_facts'] = facts
    c.depth = c.sym('depth', 8)
    c.assume(c.depth <= 16)
    c.K = c.CP + c.YW + c.X
    c.buf = c.array('buffer', 2, c.cap)
    c.A0 = A0 = c.arr(c.buf)
    c.p = c.eng.pow2(c.st, c.depth)
    c.assume(c.p <= 65536)
    K = c.K
    c.want = differential(c.p, Sel(A0, K), predictor(c.X, c.Y, Sel(A0, K - 1), Sel(A0, K - w), Sel(A0, K - w - 1)))


def filt(inplace):
    def body(c):
        grid(c)
        c.eng.opts['alloc_elem'] = 2
        K, A0, w, X, Y, C = c.K, c.A0, c.w, c.X, c.Y, c.C
        z = z3.BoolVal(True)

        def state(L, done):
            d = {}
            for i, b in enumerate([c.buf] if inplace else c.blocks(L.st)):
                B = c.arr(b, st=L.st)
                d['done %d' % i] = z3.Implies(done, Sel(B, K) == c.want)
            if inplace:
                B = c.arr(c.buf, st=L.st)
                d['kept'] = z3.Implies(z3.Not(done), Sel(B, K) == Sel(A0, K))
                d['left kept'] = z3.Implies(z3.And(z3.Not(done), X > 0), Sel(B, K - 1) == Sel(A0, K - 1))
                d['above kept'] = z3.Implies(z3.And(z3.Not(done), Y > 0), Sel(B, K - w) == Sel(A0, K - w))
                d['above left kept'] = z3.Implies(z3.And(z3.Not(done), X > 0, Y > 0), Sel(B, K - w - 1) == Sel(A0, K - w - 1))
            return d

        def T(L, v):
            outs = L.outer()
            d = {}
            if not outs:
                d['channel in range'] = v <= c.nch
                d.update({'channels: ' + k: e for k, e in state(L, v > C).items()})
            for on, o in outs:
                d['row in range'] = z3.And(sg(v) >= -1, sg(v) < c.h)
                d['column in range'] = z3.And(sg(v) >= -1, sg(v) < w)
                d.update({'rows|%s: ' % on + k: e for k, e in state(L, z3.Or(o > C, z3.And(o == C, sg(v) < Y))).items()})
                for on2, o2 in outs:
                    if on2 != on:
                        dn = z3.Or(o > C, z3.And(o == C, z3.Or(sg(o2) < Y, z3.And(sg(o2) == Y, sg(v) < X))))
                        d.update({'columns|%s|%s: ' % (on, on2) + k: e for k, e in state(L, dn).items()})
            return d
        c.auto(T)
        c.eng.opts['auto_meas'] = lambda L: {'steps left': sg(L.vars()[0][1]) + 1 if L.outer() else c.nch - L.vars()[0][1]}
        inp = c.cells('in', 16, {0: ('p', Ptr(c.buf)), 8: (64, c.cap)})
        out = c.cells('out', 16)
        c.args = [Ptr(inp), Ptr(out), w, c.h, c.nch, z3.BoolVal(inplace), c.depth]
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            q = c.eng.peekp(t, Ptr(out))
            c.ensure(t, 'result has the size of the input', c.peek(t, Ptr(out, 8), 64) == c.cap)
            I = c.arr(c.buf, st=t)
            if inplace:
                ok = isinstance(q, Ptr) and q.obj is c.buf and q.c == 0 and not q.ix
                c.ensure(t, 'result is the input block', z3.BoolVal(ok))
                B = I
            else:
                ok = isinstance(q, Ptr) and q.obj in c.blocks(t) and q.c == 0 and not q.ix
                c.ensure(t, 'result is a block of its own', z3.BoolVal(ok))
                c.ensure(t, 'input unchanged', c.fa(lambda k: Sel(I, k) == Sel(A0, k)))
                B = c.arr(q.obj, st=t) if ok else None
            c.ensure(t, 'every sample becomes its difference to the Paeth prediction from the original samples', Sel(B, K) == c.want if B is not None else z3.BoolVal(False))
    return body


P.unit('filter', 'd_filter', 'p', mode='int')(filt(False))
P.unit('filter in place', 'd_filter', 'p', mode='int')(filt(True))


@P.lemma_unit('arithmetic')
def arith(c):
    a, Y, w, h, n, C = z3.Ints('a Y w h n C')
    pre = [a >= 0, Y >= 0, w >= 1, h >= 1]
    q = z3.Int('q')
    nl = lambda x, y: x * y
    # w * (difference) with the sign of the difference
    c.lemma('rows below lie at least a row apart', z3.Implies(a < Y, a * w + w <= Y * w), *pre, (Y - a - 1) * w >= 0)
    c.lemma('products of non-negative numbers', z3.Implies(z3.And(a >= 0, w >= 0), a * w >= 0))
    c.lemma('rows above lie at least a row apart', z3.Implies(a > Y, a * w >= Y * w + w), *pre, (a - Y - 1) * w >= 0)
    c.lemma('a row index from one on lies past the first row', z3.Implies(a >= 1, a * w >= w), *pre, (a - 1) * w >= 0)
    c.lemma('every row lies in the channel', z3.Implies(a < h, a * w + w <= w * h), *pre, (h - a - 1) * w >= 0)
    c.lemma('channels lie apart', z3.And(z3.Implies(a < C, a * q + q <= C * q), z3.Implies(a > C, a * q >= C * q + q), z3.Implies(a < n, a * q + q <= n * q)), a >= 0, C >= 0, q >= 0,
            z3.Implies(a < C, (C - a - 1) * q >= 0), z3.Implies(a > C, (a - C - 1) * q >= 0), z3.Implies(a < n, (n - a - 1) * q >= 0))
    c.lemma('products of small numbers', z3.Implies(z3.And(a >= 0, a < 1 << 31, w >= 0, w < 1 << 31), a * w <= 1 << 62), z3.Implies(z3.And(a >= 0, a < 1 << 31), a * w <= (1 << 31) * w))


@P.lemma_unit('decodable')
def decodable(c):
    p, t, a, b, e, X, Y = z3.Ints('p t a b e X Y')
    rng = lambda v: z3.And(v >= 0, v < p)
    pre = [p >= 1, p <= 65536, rng(t), rng(a), rng(b), rng(e), X >= 0, Y >= 0]
    d = predictor(X, Y, a, b, e)
    o = differential(p, t, d)
    c.lemma('the prediction is one of the neighbours', z3.And(rng(d), z3.Or(d == 0, d == a, d == b, d == e)), *pre)
    c.lemma('the difference fits the bit depth', rng(o), *pre)
    c.lemma('the sample follows from the difference and the neighbours before it', t == z3.If(o + d >= p, o + d - p, o + d), *pre)


P.native = dict(src='c05.cpp', repo=['src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/models/paeth.cpp', 'src/hzip_core/runtime/config.cpp', 'src/hzip_core/runtime/cache_provider.cpp', 'src/hzip_core/opencl/cl_helper.cpp'], flags=['-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS'], secs=3, tsecs=40)
