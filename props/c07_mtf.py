from core import *
from vec import Vectors, VECKEEP
P = Property('C07', 'Move-to-front round trip')
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
P.modules = {'m': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/preprocessor/move_to_front.h>
#define D(T, N) \
void d_loc##N(uint64_t *o) { using M = hztrans::MoveToFrontTransformer<T>; o[0] = offsetof(M, lru_cache); o[1] = offsetof(M, data); o[2] = offsetof(M, alphabet_size); o[3] = sizeof(M); \
  o[4] = offsetof(rainman::ptr<T>, p); o[5] = offsetof(rainman::ptr<T>, n); } \
void d_transform##N(hztrans::MoveToFrontTransformer<T> *m) { m->transform(); } \
void d_invert##N(hztrans::MoveToFrontTransformer<T> *m) { m->invert(); }
extern "C" { D(uint8_t, 8) D(uint16_t, 16) D(uint32_t, 32) }
''', flags=['-fno-access-control'], keep=VECKEEP)}


def locs(c, fn, n=6):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * n)], 'heap')
    e2.start(st, findfn(c.eng.mods, fn), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(n)]


def setup(c, B):
    lo, do, ao, sz, po, no = locs(c, 'd_loc%d' % B)
    S = B // 8
    c.n = n = c.sym('n', 64)
    c.al = al = c.sym('alphabet', 64)
    c.assume(ULT(n, 1 << 60))
    c.assume(ULE(al, 1 << B) if B < 64 else True)
    c.d = c.array('data', S, n)
    c.X = c.arr(c.d)                           # contents at entry
    c.this = c.cells('this', sz, {do + po: ('p', Ptr(c.d)), do + no: (64, n), ao: (64, al)})
    V = Vectors(c)
    c.lru = Ptr(c.this, lo)
    c.buf = V.add(c.lru, S, name='lru')
    c.V = V
    c.args = [Ptr(c.this)]
    I, E = z3.BitVecSort(64), z3.BitVecSort(B)
    # ghost history, defined by recursion on the symbol sequence D: the list before symbol i and the position of each symbol in it
    c.D = z3.Array('D', I, E)
    c.L = z3.Function('List%d' % B, I, I, E)
    c.P = z3.Function('Pos%d' % B, I, E, I)
    L, Pp, D = c.L, c.P, c.D
    zx = lambda e: z3.ZeroExt(64 - B, e)
    c.zx = zx
    lo_ = lambda k: z3.Extract(B - 1, 0, k)
    zero = z3.BitVecVal(0, 64)
    c.assume(c.fa(lambda k: z3.Implies(ULT(k, al), L(zero, k) == lo_(k))))
    c.assume(Forall([E], lambda s: z3.Implies(ULT(zx(s), al), Pp(zero, s) == zx(s))))
    c.step = lambda i: [
        c.fa(lambda k: z3.Implies(z3.And(ULT(i, n), ULT(k, al)), L(i + 1, k) == z3.If(k == 0, Sel(D, i), z3.If(ULE(k, Pp(i, Sel(D, i))), L(i, k - 1), L(i, k))))),
        Forall([E], lambda s: z3.Implies(ULT(i, n), Pp(i + 1, s) == z3.If(s == Sel(D, i), zero, z3.If(ULT(Pp(i, s), Pp(i, Sel(D, i))), Pp(i, s) + 1, Pp(i, s)))))]
    c.assume(c.fa(lambda k: z3.Implies(ULT(k, n), ULT(zx(Sel(D, k)), al))))      # symbols are in the alphabet
    # bijection between positions and symbols, at every step (proved in the lemma unit by induction)
    c.bij = lambda i: [c.fa(lambda k: z3.Implies(ULT(k, al), z3.And(Pp(i, L(i, k)) == k, ULT(zx(L(i, k)), al)))),
                       Forall([E], lambda s: z3.Implies(ULT(zx(s), al), z3.And(ULT(Pp(i, s), al), L(i, Pp(i, s)) == s)))]
    c.assume(Forall([I, I], lambda i, k: z3.Implies(z3.And(ULE(i, n), ULT(k, al)), z3.And(Pp(i, L(i, k)) == k, ULT(zx(L(i, k)), al)))))
    c.assume(Forall([I, E], lambda i, s: z3.Implies(z3.And(ULE(i, n), ULT(zx(s), al)), z3.And(ULT(Pp(i, s), al), L(i, Pp(i, s)) == s))))
    c.assume(Forall([I, I], lambda i, k: z3.Implies(z3.And(ULT(i, n), ULT(k, al)), L(i + 1, k) == z3.If(k == 0, Sel(D, i), z3.If(ULE(k, Pp(i, Sel(D, i))), L(i, k - 1), L(i, k))))))
    c.lo = lo_


def temps(c, B, out):
    """out(i): what element i has become once processed"""
    n, al, L, Pp, D, X = c.n, c.al, c.L, c.P, c.D, c.X
    buf, d, V = c.buf, c.d, c.V

    def ln(Lv):
        return Lv.st.ghost['vlen%d:%d' % (c.lru.obj.oid, c.lru.c)]

    def t(Lv, v):
        A, W = Lv.arr(d), Lv.arr(buf)
        return {
            'in range': ULE(v, n), 'within alphabet': ULE(v, al),
            'list is the history': c.fa(lambda k: z3.Implies(ULT(k, al), Sel(W, k) == L(v, k))),
            'list length': ln(Lv) == v,
            'list filled': c.fa(lambda k: z3.Implies(ULT(k, v), Sel(W, k) == c.lo(k))),
            'done below': c.fa(lambda k: z3.Implies(z3.And(ULT(k, v), ULT(k, n)), Sel(A, k) == out(k))),
            'untouched above': c.fa(lambda k: z3.Implies(z3.And(ULE(v, k), ULT(k, n)), Sel(A, k) == Sel(X, k))),
        }

    def once(Lv):
        W, A, A0, W0 = Lv.arr(buf), Lv.arr(d), Lv.arr0(d), Lv.arr0(buf)
        return {'full length': ln(Lv) == al, 'data as before the loop': A == A0, 'list as before the loop': W == W0}
    return t, once


def unit(B, which):
    @P.unit('%s, %d-bit symbols' % (which, B), 'd_%s%d' % (which, B), 'm')
    def u(c):
        setup(c, B)
        n, al, L, Pp, D, X = c.n, c.al, c.L, c.P, c.D, c.X
        if which == 'transform':
            c.assume(X == D)
            out = lambda i: c.lo(Pp(i, Sel(D, i)))
        else:
            c.assume(c.fa(lambda k: z3.Implies(ULT(k, n), Sel(X, k) == c.lo(Pp(k, Sel(D, k))))))
            out = lambda i: Sel(D, i)

        t, once = temps(c, B, out)

        def tt(Lv, v):
            r = t(Lv, v)
            # search loop: the element being looked for is the one the enclosing loop is at
            for i, (nm, o) in enumerate(Lv.outer()):
                W = Lv.arr(c.buf)
                r['not found below|%s' % nm] = c.fa(lambda k, o=o: z3.Implies(z3.And(ULT(k, v), ULT(k, al), ULT(o, n)), Sel(W, k) != Sel(D, o)))
            return r
        c.auto(tt, once=once, hi=z3.If(ULT(n, al), al, n))
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            A = c.arr(c.d, st=t)
            if which == 'transform':
                c.ensure(t, 'every symbol becomes its position in the recency list', c.fa(lambda k: z3.Implies(ULT(k, n), Sel(A, k) == out(k))))
            else:
                c.ensure(t, 'every position becomes the symbol again', c.fa(lambda k: z3.Implies(ULT(k, n), Sel(A, k) == Sel(D, k))))


for B in (8, 32) if TIER == 'quick' else (8, 16, 32):
    unit(B, 'transform')
    unit(B, 'invert')


@P.lemma_unit('recency list is a permutation of the alphabet')
def perm(c):
    """induction over the symbols: positions and symbols stay in bijection"""
    B = 32
    I, E = z3.BitVecSort(64), z3.BitVecSort(B)
    L0, L1, P0, P1 = (z3.Function(x, *s) for x, s in (('L0', (I, E)), ('L1', (I, E)), ('P0', (E, I)), ('P1', (E, I))))
    al, k, x0 = z3.BitVecs('al k zero', 64)
    s, d = z3.BitVecs('s d', B)
    zx = lambda e: z3.ZeroExt(64 - B, e)
    lo = lambda k: z3.Extract(B - 1, 0, k)
    small = ULE(al, 1 << B)
    posn = lambda L, P, k: z3.Implies(ULT(k, al), z3.And(P(L(k)) == k, ULT(zx(L(k)), al)))
    sym = lambda L, P, s: z3.Implies(ULT(zx(s), al), z3.And(ULT(P(s), al), L(P(s)) == s))
    init = [c.fa(lambda k: z3.Implies(ULT(k, al), L0(k) == lo(k))), Forall([E], lambda s: z3.Implies(ULT(zx(s), al), P0(s) == zx(s)))]
    c.lemma('initially: positions', posn(L0, P0, k), small, *init)
    c.lemma('initially: symbols', sym(L0, P0, s), small, *init)
    q = P0(d)
    nl = lambda k: z3.Implies(ULT(k, al), L1(k) == z3.If(k == 0, d, z3.If(ULE(k, q), L0(k - 1), L0(k))))
    np = lambda s: P1(s) == z3.If(s == d, z3.BitVecVal(0, 64), z3.If(ULT(P0(s), q), P0(s) + 1, P0(s)))
    ih = [c.fa(lambda k: posn(L0, P0, k)), Forall([E], lambda s: sym(L0, P0, s))]
    st = [c.fa(nl), Forall([E], np)]
    hk = [posn(L0, P0, k), posn(L0, P0, k - 1), sym(L0, P0, d), nl(k), np(d), np(L0(k)), np(L0(k - 1))]
    c.lemma('step: positions', posn(L1, P1, k), small, ULT(zx(d), al), *hk)
    hs = [sym(L0, P0, s), sym(L0, P0, d), np(s), np(d), nl(P0(s)), nl(P0(s) + 1), nl(z3.BitVecVal(0, 64))]
    c.lemma('step: symbols', sym(L1, P1, s), small, ULT(zx(d), al), *hs)


P.native = dict(src='c07.cpp', secs=3, tsecs=60)
