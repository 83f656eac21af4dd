from core import *
from eng import PtrArr, Volatile, Fork, LinOff
from lib import trust
import re
P = Property('C17', 'Victini blocks decompress to the original bytes')
HEAD = r'''
#include <cstdint>
#include <cstddef>
#include <hzip_codec/victini/victini.cpp>
'''
P.modules = {'n': dict(text=HEAD + r'''
extern "C" {
using D2 = rainman::ptr2d<uint64_t>;
void d_normalize(D2 *d, D2 *c) { hzcodec::Victini::_normalize(*d, *c); }
}
''', flags=['-fno-access-control'])}
Sel = z3.Select
I = z3.IntSort()
AI = z3.ArraySort(I, I)
M, T24 = 16776960, 1 << 24
SUM = z3.Function('SUM', AI, I, I)       # SUM(A, k) = A[0] + .. + A[k-1]
sm = lambda A, k: z3.If(k == 0, 0, SUM(A, k))
rng = lambda k: z3.And(0 <= k, k < 256)


def ptr2d(c, name, R, elem=8):
    """a 256 x 256 table behind row pointers. Row R (any row) has its own array; of all other rows nothing is known or remembered"""
    e, st = c.eng, c.st
    a = e.new_arr(st, name + '_R', elem, c.const(256))
    other = e.newobj(st, name + '_other', [Volatile(0, elem, c.const(256))])
    rows = e.newobj(st, name + '_rows', [])
    os = st.mem[rows.oid].copy()
    os.regs = [PtrArr(0, c.const(256), lambda eng, s, i, inner: c.const(256) if inner else Fork([(i == R, Ptr(a)), (i != R, Ptr(other))]), 16)]
    st.mem[rows.oid] = os
    p = e.newobj(st, name + '_ptr', [Cells(0, 16)])
    os, ri, r = e.access(st, Ptr(p), 8, 'init')
    e._store(st, os, ri, r, Ptr(p), 8, Ptr(rows), False)
    e.poke(st, Ptr(p, 8), 64, c.const(256))
    return p, a


def sums(c, objs):
    """ground instances of the definition of SUM (and of its growth over non-negative numbers) for the arrays that are read and written"""
    first = {o.oid: c.arr(o) for o in objs}

    def known(eng, st, q):
        if isinstance(q, Ptr) and q.obj in objs:
            return eng.arr(st, q.obj), eng.lin_div(LinOff(q.c, q.ix), 8)
        return None

    def watch(eng, st, q, store):
        k = known(eng, st, q)
        if k and not store:
            for A in {k[0].get_id(): k[0], first[q.obj.oid].get_id(): first[q.obj.oid]}.values():
                i = k[1]
                st.pc += [SUM(A, 0) == 0, z3.Implies(rng(i), z3.And(SUM(A, i + 1) == SUM(A, i) + Sel(A, i), SUM(A, i) >= 0, SUM(A, i + 1) <= SUM(A, 256)))]

    def on_store(eng, st, q, v, ty):
        k = known(eng, st, q)
        if k:
            A, i = k
            B = z3.Store(A, i, v)
            st.pc += [z3.Implies(rng(i), SUM(B, 256) == SUM(A, 256) - Sel(A, i) + v)]
    c.eng.opts['watch'], c.eng.opts['on_store'] = watch, on_store


@P.unit('normalisation', 'd_normalize', 'n', mode='int')
def normalize(c):
    R = c.sym('row', 64)            # any row
    c.assume(R < 256)
    d, da = ptr2d(c, 'dict', R)
    cd, ca = ptr2d(c, 'cdict', R)
    F = c.arr(da)
    sums(c, [da])
    S = SUM(F, 256)
    S1 = z3.If(S == 0, 1, S)
    c.assume(SUM(F, 0) == 0, 0 <= S, S < (1 << 64) // M)            # the scaled counts fit 64 bits
    c.assume(c.fa(lambda k: z3.Implies(rng(k), z3.And(0 <= Sel(F, k), Sel(F, k) <= S))))      # lemma: a term is at most the sum
    c.eng.opts['nl'] = True
    DIV = c.eng.uf('DIV', 2)
    share = lambda k: DIV(Sel(F, k) * M, S1)
    Dd = z3.Function('D', I, I)              # sum of the first k scaled shares
    c.assume(Dd(0) == 0, c.fa(lambda k: z3.Implies(rng(k), z3.And(share(k) >= 0, share(k) <= M, z3.Implies(S1 == 1, share(k) == Sel(F, k) * M), Dd(k + 1) == Dd(k) + share(k), Dd(k) >= 0, Dd(k + 1) <= M))))
    c.assume(0 <= Dd(256), Dd(256) <= M)

    done_ = lambda A: [('shares', c.fa(lambda k: z3.Implies(rng(k), z3.And(Sel(A, k) >= 1, Sel(A, k) <= T24)))), ('sum', SUM(A, 256) == T24)]

    def facts(A, CA, cond, when):
        im = lambda g: z3.Implies(cond, g)
        return {'shares ' + when: c.fa(lambda k: z3.Implies(z3.And(cond, rng(k)), z3.And(Sel(A, k) >= 1, Sel(A, k) <= T24))),
                'sum ' + when: im(SUM(A, 256) == T24),
                'starts ' + when: c.fa(lambda k: z3.Implies(z3.And(cond, rng(k)), Sel(CA, k) == sm(A, k)))}

    def t(L, v):
        A, CA = L.arr(da), L.arr(ca)
        if not L.outer():
            return {'row index': z3.And(0 <= v, v <= 256), 'row not reached': z3.Implies(v <= R, A == F)} | facts(A, CA, v > R, 'row done')
        r = {'index': z3.And(0 <= v, v <= 256), 'below 256': z3.And(0 <= v, v < 256)}
        for on, o in L.outer():
            q = '|' + on
            here = o == R
            r['kept from here' + q] = c.fa(lambda k: z3.Implies(z3.And(here, v <= k, rng(k)), Sel(A, k) == Sel(F, k)))
            r['scaled below' + q] = c.fa(lambda k: z3.Implies(z3.And(here, k < v, rng(k)), z3.And(Sel(A, k) >= 1, Sel(A, k) <= M + 1)))
            r['residue' + q] = z3.Implies(here, z3.And(SUM(A, 256) + v == T24, 0 <= v, v <= M))
            r['all shares' + q] = c.fa(lambda k: z3.Implies(z3.And(here, rng(k)), z3.And(Sel(A, k) >= 1, Sel(A, k) + v <= T24)))
            r['starts so far' + q] = c.fa(lambda k: z3.Implies(z3.And(here, k < v, rng(k)), Sel(CA, k) == sm(A, k)))
            for nm, w, _, _ in L.vars():
                if w is v:
                    continue
                r['%s sums%s' % (nm, q)] = z3.Implies(here, v == sm(A, w))
                r['%s shares%s' % (nm, q)] = z3.Implies(here, z3.And(v == w + Dd(w), SUM(A, 256) == v + (S - sm(F, w))))
        return r

    def once(L):
        A, CA = L.arr(da), L.arr(ca)
        r = {}
        for on, o in L.outer():
            q = '|' + on
            r['untouched yet' + q] = z3.Implies(o < R, A == F)
            r['untouched still' + q] = z3.Implies(o == R, A == F)
            for k, g in facts(A, CA, o > R, 'of finished row').items():
                r[k + q] = g
            for k, g in facts(A, CA, o == R, 'of this row').items():
                if 'starts' not in k:
                    r[k + q] = g
        return r
    c.auto(t, hi=c.const(256), once=once)
    c.eng.opts['cut_const'] = True
    c.args = [Ptr(d), Ptr(cd)]
    yield
    for tt in c.terminals:
        c.ensure(tt, 'returns normally', z3.BoolVal(tt.done == 'ret'))
        A, CA = c.arr(da, st=tt), c.arr(ca, st=tt)
        c.ensure(tt, 'every symbol gets a share', c.fa(lambda k: z3.Implies(rng(k), Sel(A, k) >= 1)))
        c.ensure(tt, 'the shares of a row add up to 2^24', SUM(A, 256) == T24)
        c.ensure(tt, 'intervals start where the ones before end', c.fa(lambda k: z3.Implies(rng(k), Sel(CA, k) == sm(A, k))))


@P.lemma_unit('arithmetic')
def arith(c):
    S, m, x, y, f, k, q, r, s, t = z3.Ints('S m x y f k q r s t')
    A, B = z3.Array('A', I, I), z3.Array('B', I, I)
    Pf, PA, PB, D = (z3.Function(n, I, I) for n in ('Pf', 'PA', 'PB', 'D'))
    i, v, j = z3.Ints('i v j')
    at = lambda k: PB(k) == PA(k) + z3.If(i < k, v - Sel(A, i), 0)
    c.lemma('sum after a store: base', at(z3.IntVal(0)), PA(0) == 0, PB(0) == 0, i >= 0)
    c.lemma('sum after a store: step', at(k + 1), i >= 0, k >= 0, at(k), B == z3.Store(A, i, v), PA(k + 1) == PA(k) + Sel(A, k), PB(k + 1) == PB(k) + Sel(B, k))
    # sums over non-negative numbers grow, so every prefix is at most the whole and every term at most the sum
    c.lemma('prefix sums grow: step', z3.And(PA(k + 1) >= PA(j), PA(k + 1) >= 0), PA(k + 1) == PA(k) + Sel(A, k), Sel(A, k) >= 0, PA(k) >= PA(j), PA(k) >= 0)
    c.lemma('a term is at most the sum', Sel(A, k) <= s, PA(k + 1) == PA(k) + Sel(A, k), PA(k) >= 0, PA(k + 1) <= s)
    # share_k = floor(f_k * M / S); S * D(k) <= M * Pf(k) by induction, so all shares together are at most M
    c.lemma('floor division times divisor', z3.And(S * (x / S) <= x, x / S >= 0), S >= 1, x >= 0)
    c.lemma('shares of the first k symbols: base', S * D(0) <= M * Pf(0), D(0) == 0, Pf(0) == 0)
    c.lemma('shares of the first k symbols: step', S * D(k + 1) <= M * Pf(k + 1), S * D(k) <= M * Pf(k), D(k + 1) == D(k) + q, Pf(k + 1) == Pf(k) + f, S * q <= f * M)
    c.lemma('all shares fit', x <= M, S >= 1, S * x <= M * y, y <= S, z3.Implies(x - M >= 1, S * (x - M) >= S))
    c.lemma('e >= 1 gives S*e >= S', z3.Implies(x >= 1, S * x >= S), S >= 1)
    c.lemma('without any count there is no share', z3.And(f == 0, q == 0), S == 1, f >= 0, f <= 0, q == f * M)
    # the intervals of one row: [PA(k), PA(k) + A[k]); equal width sums make them tile [0, 2^24), so a slot decides the symbol
    c.lemma('a slot lies in one interval only', k == j, PA(k) <= x, x < PA(k + 1), PA(j) <= x, x < PA(j + 1), z3.Implies(k < j, PA(k + 1) <= PA(j)), z3.Implies(j < k, PA(j + 1) <= PA(k)))


P.native = dict(src='c17.cpp', repo=['src/hzip_codec/victini/victini.cpp', 'src/hzip_core/kernel/hzrans/hzrans64.cpp', 'src/hzip_core/kernel/hzrans/hzrans64_codec.cpp', 'src/hzip_core/models/first_order_context.cpp', 'src/hzip_core/blob/blob.cpp'], libs=['-lcrypto'], secs=5, tsecs=90)
