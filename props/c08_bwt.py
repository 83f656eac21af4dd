from core import *
from eng import LinOff
from lib import trust
import re
P = Property('C08', 'Block sorting round trip')
P.modules = {'b': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <vector>
#include <hzip_core/preprocessor/burrows_wheeler.h>
using B = hztrans::BurrowsWheelerTransformer<int16_t, int32_t>;
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(B, data); o[1] = offsetof(B, alphabet_size); o[2] = sizeof(B); o[3] = offsetof(rainman::ptr<int16_t>, p); o[4] = offsetof(rainman::ptr<int16_t>, n); }
void d_radix(B *m, int32_t *a, int32_t *b, int32_t *r, uint64_t n, uint64_t K) { m->radix_pass(a, b, r, n, K); }
uint64_t d_transform(B *m) { return m->transform(); }
void d_invert(B *m, uint64_t i) { m->invert(i); }
}
''', flags=['-fno-access-control'], keep=re.compile(r'^(\w[\w:<>*&, ]* )?std::vector<|std::__throw'))}
Sel = z3.Select
I = z3.IntSort()
im = z3.Implies
rg = lambda a, k, b: z3.And(a <= k, k < b)


def ranks(c, n, K, key):
    """ghost: CNT(v, i) = how many of the first i keys are v; LESS(v) = how many keys are smaller than v; POS = rank in the stable sort"""
    CNT, LESS = z3.Function('CNT', I, I, I), z3.Function('LESS', I, I)
    c.assume(Forall([I], lambda k: CNT(k, 0) == 0))
    c.assume(Forall([I, I], lambda k, i: im(rg(0, i, n), z3.And(CNT(k, i + 1) == CNT(k, i) + z3.If(key(i) == k, 1, 0), 0 <= CNT(k, i), CNT(k, i) <= i, CNT(k, i + 1) <= CNT(k, n)))))
    c.assume(Forall([I], lambda k: im(rg(0, k, K + 1), z3.And(0 <= CNT(k, n), CNT(k, n) <= n, LESS(k + 1) == LESS(k) + CNT(k, n), 0 <= LESS(k), LESS(k + 1) <= n))))
    c.assume(LESS(0) == 0)
    return CNT, LESS, lambda i: LESS(key(i)) + CNT(key(i), i)


@P.unit('stable counting sort', 'd_radix', 'b', mode='int')
def radix(c):
    c.eng.opts['alloc_elem'] = 4
    n, K, m = c.sym('n', 64), c.sym('K', 64), c.sym('keys', 64)
    c.assume(n < (1 << 31) - 1, K < (1 << 31) - 2, m < 1 << 31)
    a, b, r = c.array('a', 4, n), c.array('b', 4, n), c.array('r', 4, m)
    A, R = c.arr(a), c.arr(r)
    c.assume(c.fa(lambda i: im(rg(0, i, n), rg(0, Sel(A, i), m))))
    key = lambda i: Sel(R, Sel(A, i))
    c.assume(c.fa(lambda i: im(rg(0, i, n), rg(0, key(i), K + 1))))
    CNT, LESS, POS = ranks(c, n, K, key)
    i0 = c.sym('element', 64)        # any element
    c.assume(i0 < n)
    c.assume(c.fa(lambda i: im(rg(0, i, n), z3.And(rg(0, POS(i), n), im(i != i0, POS(i) != POS(i0))))))      # lemma: ranks are distinct
    this = c.cells('this', 64)
    c.args = [Ptr(this), Ptr(a), Ptr(b), Ptr(r), n, K]
    c.z = c.fa

    def t(L, v):
        q = {'in range': z3.And(0 <= v, v <= n), 'in alphabet': z3.And(0 <= v, v <= K + 1)}
        bl = c.blocks(L.st)
        if not bl:
            return q
        C, B = L.arr(bl[0]), L.arr(b)
        q |= {'zeroed': c.fa(lambda k: im(z3.And(rg(0, k, v), k <= K), Sel(C, k) == 0)),
              'counted': c.fa(lambda k: im(rg(0, k, K + 1), Sel(C, k) == CNT(k, v))),
              'starts': c.fa(lambda k: im(z3.And(rg(0, k, v), k <= K), Sel(C, k) == LESS(k))),
              'counts from here': c.fa(lambda k: im(rg(v, k, K + 1), Sel(C, k) == CNT(k, n))),
              'next free place': c.fa(lambda k: im(rg(0, k, K + 1), Sel(C, k) == LESS(k) + CNT(k, v))),
              'placed': im(i0 < v, Sel(B, POS(i0)) == Sel(A, i0))}
        for nm, w, _, _ in L.vars():
            q['%s running start' % nm] = z3.And(v == LESS(w), v <= n)
        return q
    c.auto(t, hi=z3.If(n < K + 1, K + 1, n), once=lambda L: {'elements kept': L.arr(a) == A, 'keys kept': L.arr(r) == R})
    yield
    for tt in c.terminals:
        c.ensure(tt, 'returns normally', z3.BoolVal(tt.done == 'ret'))
        c.ensure(tt, 'every element at its rank', Sel(c.arr(b, st=tt), POS(i0)) == Sel(A, i0))
        c.ensure(tt, 'input kept', z3.And(c.arr(a, st=tt) == A, c.arr(r, st=tt) == R))


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 40)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(5)]


def setup(c):
    c.eng.opts['alloc_elem'] = lambda S: S
    do, ao, sz, po, no = locs(c)
    c.n = n = c.sym('n', 64)                  # length of the data
    c.al = al = c.sym('alphabet', 64)
    c.assume(n < (1 << 31) - 8, al >= 1, al < (1 << 15) - 1)
    c.d = c.array('data', 2, n)
    c.D = c.arr(c.d)
    c.this = c.cells('this', sz, {do + po: ('p', Ptr(c.d)), do + no: (64, n), ao: (64, al)})
    return n, al


@P.unit('transform', 'd_transform', 'b', mode='int')
def transform(c):
    n, al = setup(c)
    D = c.D
    c.assume(c.fa(lambda k: im(rg(0, k, n), rg(0, Sel(D, k), al))))
    N = n + 1
    # the text in front of which a terminator, smaller than every symbol, is put
    z = lambda p: z3.If(p == 0, 0, Sel(D, p - 1) + 1)
    S = z3.Function('SA', I, I)            # ghost: the suffix array of that text
    c.assume(c.fa(lambda k: im(rg(0, k, N), rg(0, S(k), N))))
    w = c.sym('row of the text', 64)
    one = z3.If(N == 1, 0, 1)
    c.assume(w < N, S(w) == one, c.fa(lambda k: im(z3.And(rg(0, k, N), k != w), S(k) != one)))      # a permutation
    prev = lambda p: z3.If(p == 0, N - 1, p - 1)

    @trust('suffix_array: SA[k] is the start of the k-th smallest suffix of T[0..n), T unchanged (bounded check in replay/c08.cpp)')
    def sa(eng, st, k):
        T, SA = k.args[1], k.args[2]
        c.eng.oblig(st, z3.And(eng.intv(st, k.args[3]) == N, eng.intv(st, k.args[4]) == al + 1), 'call-requires', label='suffix_array gets the whole text and its alphabet')
        TA = eng.arr(st, T.obj)
        eng.oblig(st, c.fa(lambda j: im(rg(0, j, N), Sel(TA, j) == z(j))), 'call-requires', label='suffix_array gets the text with its terminator')
        eng.oblig(st, z3.And(Sel(TA, N) == 0, Sel(TA, N + 1) == 0, Sel(TA, N + 2) == 0, T.c == 0 and not T.ix, SA.c == 0 and not SA.ix), 'call-requires', label='suffix_array gets its padding')
        B = eng.freshc('suffixes', TA.sort())
        st.assume(c.fa(lambda j: im(rg(0, j, N), Sel(B, j) == S(j))))
        c.sa = SA.obj
        eng.setarr(st, SA.obj, B)
        return None
    c.handle(re.compile(r'::suffix_array\('), sa)
    c.args = [Ptr(c.this)]

    def t(L, v):
        bl = c.blocks(L.st)
        A = L.arr(c.d)
        q = {'in range': z3.And(0 <= v, v <= N), 'in padded range': z3.And(0 <= v, v <= N + 3), 'in data': z3.And(0 <= v, v <= n),
             'symbols so far': c.fa(lambda k: im(z3.And(rg(0, k, v), k <= n), z3.And(
                 im(k < w, Sel(A, k) == z(prev(S(k))) - 1), im(k > w, Sel(A, k - 1) == z(prev(S(k))) - 1))))}
        for nm, x, _, _ in L.vars():
            q['%s places' % nm] = v == x - z3.If(x > w, 1, 0)
            q['%s row' % nm] = im(x > w, v == w)
        for i, b in enumerate(bl[:4]):
            try:
                Z = L.arr(b)
            except Exception:
                continue
            q['text in block %d' % i] = c.fa(lambda k, Z=Z: im(z3.And(rg(0, k, v), k < N), Sel(Z, k) == z(k)))
            q['text in block %d, next' % i] = c.fa(lambda k, Z=Z: im(z3.And(0 <= k, k <= v, k < N), Sel(Z, k) == z(k)))
            q['zero in block %d' % i] = c.fa(lambda k, Z=Z: im(rg(0, k, v), Sel(Z, k) == 0))
            q['zero padding in block %d' % i] = c.fa(lambda k, Z=Z: im(rg(N, k, N + 3), Sel(Z, k) == 0))
        return q

    def once(L):
        q = {'data kept': L.arr(c.d) == D}
        for i, b in enumerate(c.blocks(L.st)[:4]):
            try:
                Z = L.arr(b)
            except Exception:
                continue
            q['text kept in block %d' % i] = c.fa(lambda k, Z=Z: im(rg(0, k, N), Sel(Z, k) == z(k)))
        return q
    c.auto(t, hi=N + 3, once=once)
    yield
    for tt in c.terminals:
        c.ensure(tt, 'returns normally', z3.BoolVal(tt.done == 'ret'))
        A = c.arr(c.d, st=tt)
        c.ensure(tt, 'the row of the text', tt.ret == w)
        c.ensure(tt, 'symbol before each suffix, in their order', c.fa(lambda k: im(rg(0, k, N), z3.And(im(k < w, Sel(A, k) == z(prev(S(k))) - 1), im(k > w, Sel(A, k - 1) == z(prev(S(k))) - 1)))))


class Lists:
    """std::vector<uint64_t> lists[alphabet + 1], a copy of one of them, and std::vector<int> jumpers: standard sequence semantics"""

    def __init__(self, c, count):
        e, st = c.eng, c.st
        self.c, self.count, self.elem = c, count, None
        self.lists = e.newobj(st, 'lists', [])
        self.its = e.newobj(st, 'iterators', [])
        self.j = e.new_arr(st, 'jumpers', 4, c.const(1 << 60))
        st.setg('n', z3.K(I, z3.IntVal(0)))                      # lengths
        st.setg('at', z3.K(I, z3.K(I, z3.IntVal(0))))            # elements
        st.setg('jn', z3.IntVal(0))
        st.setg('which', z3.IntVal(0))
        st.setg('made', z3.IntVal(0))
        U, J = r'std::vector<unsigned long, [^()]*>::', r'std::vector<int, [^()]*>::'
        for pat, fn in ((r'^rainman::ptr<std::vector<unsigned long,.*>::ptr\(unsigned long\)$', self.array), (U + r'operator=\(', self.assign), (U + r'(push_back|emplace_back)', self.push),
                        (U + r'vector\(std::vector', self.copy), (U + r'vector\(\)', self.nop), (U + r'~vector\(\)', self.nop), (U + r'(empty|size)\(\)', self.size), (U + r'(c?begin|c?end)\(\)', self.iter),
                        (J + r'vector\(\)', self.jnew), (J + r'~vector\(\)', self.nop), (J + r'end\(\)', self.jend), (J + r'size\(\)', self.jsize), (J + r'insert<', self.insert), (J + r'operator\[\]\(', self.jat)):
            def h(eng, st, k, fn=fn):
                return fn(eng, st, k)
            h.trust = 'std::vector: standard sequence semantics'
            c.handle(re.compile(pat), h)

    def nop(self, eng, st, k):
        return None

    def array(self, eng, st, k):
        eng.oblig(st, eng.intv(st, k.args[1]) == self.count, 'call-requires', label='one list per symbol and terminator')
        p = k.args[0]
        eng.poke(st, Ptr(p.obj, p.c + 8, p.ix), 64, eng.intv(st, k.args[1]))
        os, ri, r = eng.access(st, p, 8, 'array')
        eng._store(st, os, ri, r, p, 8, Ptr(self.lists), False)
        st.setg('n', z3.K(I, z3.IntVal(0)))
        return None

    def which(self, eng, st, p):
        if isinstance(p, Ptr) and p.obj is self.lists:
            i = eng.lin_div(LinOff(p.c, p.ix), 24)
            eng.oblig(st, rg(0, i, self.count), 'in-bounds', label='list of an existing symbol')
            return i
        if isinstance(p, Ptr) and self.elem == p.obj.oid:
            return st.ghost['which']
        raise Unsupported('vector at %r' % (p,))

    def assign(self, eng, st, k):
        i = self.which(eng, st, k.args[0])
        if k.args[1].obj is self.lists:
            raise Unsupported('list moved')
        st.setg('n', z3.Store(st.ghost['n'], i, 0))
        return k.args[0]

    def push(self, eng, st, k):
        i = self.which(eng, st, k.args[0])
        v = eng.peek(st, k.args[1], 64)
        n, at = st.ghost['n'], st.ghost['at']
        st.setg('at', z3.Store(at, i, z3.Store(Sel(at, i), Sel(n, i), v)))
        st.setg('n', z3.Store(n, i, Sel(n, i) + 1))
        self.pushed(st, v)
        return None if k.ret == ('void',) else Opaque('ref')

    def copy(self, eng, st, k):
        st.setg('which', self.which(eng, st, k.args[1]))
        self.elem = k.args[0].obj.oid
        return None

    def size(self, eng, st, k):
        i = self.which(eng, st, k.args[0])
        self.joined(st, i)
        n = Sel(st.ghost['n'], i)
        return n == 0 if 'empty(' in k.fn else n

    def iter(self, eng, st, k):
        i = self.which(eng, st, k.args[0])
        st.assume(Sel(st.ghost['n'], i) >= 0)
        st.setg('which', i)
        self.joined(st, i)
        return Ptr(self.its) if 'begin(' in k.fn else Ptr(self.its, 8, ())

    def jnew(self, eng, st, k):
        st.setg('jn', z3.IntVal(0))

    def jend(self, eng, st, k):
        return Ptr(self.j, 0, ((st.ghost['jn'], 4),))

    def jsize(self, eng, st, k):
        return st.ghost['jn']

    def insert(self, eng, st, k):
        _, pos, b, e = k.args
        if pos.obj is not self.j or b.obj is not self.its or e.obj is not self.its or b.c != 0 or e.c != 8:
            raise Unsupported('insert of part of a list')
        jn, i = st.ghost['jn'], st.ghost['which']
        eng.oblig(st, eng.lin_div(LinOff(pos.c, pos.ix), 4) == jn, 'call-requires', label='appended at the end')
        A = eng.arr(st, self.j)
        n, at = Sel(st.ghost['n'], i), Sel(st.ghost['at'], i)
        B = eng.freshc('longer', A.sort())
        self.joined(st, i)
        st.assume(self.c.fa(lambda q: im(rg(0, q, jn), Sel(B, q) == Sel(A, q))))
        st.assume(self.c.fa(lambda q: im(z3.And(rg(jn, q, jn + n), Sel(at, q - jn) >= 0, Sel(at, q - jn) < 1 << 31), Sel(B, q) == Sel(at, q - jn))))
        st.assume(self.c.fa(lambda q: z3.And(Sel(B, q) >= 0, Sel(B, q) < 1 << 32)))
        eng.setarr(st, self.j, B)
        st.setg('jn', jn + n)
        return Ptr(self.j, 0, ((jn, 4),))

    def jat(self, eng, st, k):
        i = eng.intv(st, k.args[1])
        eng.oblig(st, rg(0, i, st.ghost['jn']), 'in-bounds', label='row exists')
        return Ptr(self.j, 0, ((i, 4),))


@P.unit('inverse', 'd_invert', 'b', mode='int')
def invert(c):
    n, al = setup(c)
    N = n + 1
    X = c.D                                   # the transformed data
    D = z3.Array('D', I, I)                   # ghost: the original data
    c.assume(c.fa(lambda k: im(rg(0, k, n), rg(0, Sel(D, k), al))))
    z = lambda p: z3.If(p == 0, 0, Sel(D, p - 1) + 1)
    prev = lambda p: z3.If(p == 0, N - 1, p - 1)
    wrap = lambda x: z3.If(N == 1, 0, z3.If(x < N, x, z3.If(x < 2 * N, x - N, x - 2 * N)))
    R = z3.Function('Row', I, I)              # ghost: the row of the rotation that starts at p
    last = z3.Function('last', I, I)          # ghost: last column of the sorted rotations, last(Row(p)) = z(p - 1)
    w = c.sym('row of the text', 64)
    c.assume(w < N, w == R(z3.If(N == 1, 0, 1)))
    # what transform leaves (its contract)
    c.assume(c.fa(lambda k: im(rg(0, k, n), z3.And(rg(0, Sel(X, k), al), Sel(X, k) + 1 == last(k + z3.If(k >= w, 1, 0))))), last(w) == 0)
    c.assume(c.fa(lambda k: im(rg(0, k, N), rg(0, last(k), al + 1))))
    CNT, LESS = z3.Function('CNT', I, I, I), z3.Function('LESS', I, I)
    POS = z3.Function('POS', I, I)
    c.assume(LESS(0) == 0, LESS(al + 1) == N)
    c.assume(c.fa(lambda i: im(rg(0, i, N), z3.And(POS(i) == LESS(last(i)) + CNT(last(i), i), rg(0, POS(i), N)))))
    # lemma (last-to-first): the rank of row Row(p) among the last column is the row of the text position before p
    c.assume(c.fa(lambda p: im(rg(0, p, N), z3.And(rg(0, R(p), N), POS(R(p)) == R(prev(p)), last(R(p)) == z(prev(p))))))
    c.eng.opts['cell_vars'] = True
    V = Lists(c, al + 1)
    c.assume(c.fa(lambda k: CNT(k, 0) == 0))

    def pushed(st, i):        # definition of CNT at i
        st.assume(c.fa(lambda k: im(rg(0, i, N), z3.And(CNT(k, i + 1) == CNT(k, i) + z3.If(last(i) == k, 1, 0), CNT(k, i) >= 0))))
        st.assume(c.fa(lambda q: im(z3.And(rg(0, q, i), i <= N), z3.And(0 <= CNT(last(q), q), CNT(last(q), q) < CNT(last(q), i)))))     # lemma: earlier rows count less

    def joined(st, v):        # definition of LESS at v, places of the rows that end in v (lemma: places by symbol)
        st.assume(im(rg(0, v, al + 1), z3.And(LESS(v + 1) == LESS(v) + CNT(v, N), CNT(v, N) >= 0, LESS(v) >= 0, LESS(v + 1) <= N)))
        st.assume(c.fa(lambda i: im(z3.And(rg(0, i, N), rg(0, v, al + 1)), z3.And((last(i) < v) == (POS(i) < LESS(v)), (last(i) <= v) == (POS(i) < LESS(v + 1)),
                                                                                           0 <= CNT(last(i), i), CNT(last(i), i) < CNT(last(i), N)))))
    V.pushed, V.joined = pushed, joined
    c.args = [Ptr(c.this), w]

    def t(L, v):
        A, J = L.arr(c.d), L.arr(V.j)
        gn, ga, jn = (L.st.ghost[q] for q in ('n', 'at', 'jn'))
        q = {'in range': z3.And(0 <= v, v <= N), 'in data': z3.And(0 <= v, v <= n), 'in alphabet': z3.And(0 <= v, v <= al + 1),
             'lists so far': c.fa(lambda k: im(z3.And(rg(0, k, al + 1)), z3.And(Sel(gn, k) == CNT(k, v)))),
             'emptied so far': c.fa(lambda k: im(z3.And(rg(0, k, v), k <= al), z3.And(Sel(gn, k) == 0))),
             'listed so far': c.fa(lambda i: im(z3.And(rg(0, i, v), i < N), Sel(Sel(ga, last(i)), CNT(last(i), i)) == i)),
             'jumps of symbols so far': c.fa(lambda i: im(z3.And(rg(0, i, N), POS(i) < LESS(v)), Sel(J, POS(i)) == i)),
             'jumps so far': jn == LESS(v),
             'restored so far': c.fa(lambda k: im(z3.And(rg(0, k, v), k < n), Sel(A, k) == Sel(D, k)))}
        for nm, x, _, _ in L.vars():
            q['%s column' % nm] = v == z3.If(x < N, x, n) + z3.If(x > w, 1, 0)
            q['%s walk' % nm] = z3.And(v == R(wrap(x + 1)), POS(R(wrap(x + 2))) == v, 0 <= R(wrap(x + 2)), R(wrap(x + 2)) < N)
            q['%s min' % nm] = v == z3.If(x < n, x, n)
        for i, b in enumerate(c.blocks(L.st)[:3]):
            try:
                Z = L.arr(b)
            except Exception:
                continue
            q['symbols in block %d' % i] = c.fa(lambda k, Z=Z: im(z3.And(rg(0, k, v), k < n), Sel(Z, k) == Sel(X, k) + 1))
            q['column in block %d' % i] = c.fa(lambda k, Z=Z: im(z3.And(rg(0, k, v), k < N), Sel(Z, k) == last(k)))
        return q

    def once(L):
        A, J = L.arr(c.d), L.arr(V.j)
        gn, ga, jn = (L.st.ghost[q] for q in ('n', 'at', 'jn'))
        q = {'data kept': A == X, 'jumpers empty': jn == 0,
             'all listed': c.fa(lambda i: im(rg(0, i, N), Sel(Sel(ga, last(i)), CNT(last(i), i)) == i)),
             'all lists': c.fa(lambda k: im(z3.And(rg(0, k, al + 1)), z3.And(Sel(gn, k) == CNT(k, N))))}
        for i, b in enumerate(c.blocks(L.st)[:3]):
            try:
                Z = L.arr(b)
            except Exception:
                continue
            q['all symbols in block %d' % i] = c.fa(lambda k, Z=Z: im(rg(0, k, n), Sel(Z, k) == Sel(X, k) + 1))
            q['whole column in block %d' % i] = c.fa(lambda k, Z=Z: im(rg(0, k, N), Sel(Z, k) == last(k)))
        return q
    c.auto(t, hi=z3.If(N > al, N, al + 1), once=once)
    yield
    for tt in c.terminals:
        c.ensure(tt, 'returns normally', z3.BoolVal(tt.done == 'ret'))
        c.ensure(tt, 'the original data', c.fa(lambda k: im(rg(0, k, n), Sel(c.arr(c.d, st=tt), k) == Sel(D, k))))


@P.lemma_unit('ranks and rotations')
def math(c):
    i, j, k, u, v, n, K, key, x, y, p, q, w, N = z3.Ints('i j k u v n K key x y p q w N')
    C, W0, W1, C0, C1, LESS, h = (z3.Function(f, I, I) for f in ('C', 'W0', 'W1', 'C0', 'C1', 'LESS', 'h'))
    # C(i): how many of the first i keys are v
    c.lemma('counts: base', z3.And(0 <= C(0), C(0) <= 0), C(0) == 0)
    c.lemma('counts: step', z3.And(0 <= C(i + 1), C(i + 1) <= i + 1), 0 <= C(i), C(i) <= i, C(i + 1) == C(i) + z3.If(key == v, 1, 0))
    c.lemma('counts grow: step', C(j) <= C(i + 1), C(j) <= C(i), C(i + 1) == C(i) + z3.If(key == v, 1, 0))
    c.lemma('earlier rows count less', C(i) < C(j), key == v, C(i + 1) == C(i) + z3.If(key == v, 1, 0), C(i + 1) <= C(j))
    # W0(v), W1(v): how many of the first i (i + 1) keys are below v; C0(v), C1(v): how many are v
    st = [W0(v + 1) == W0(v) + C0(v), W1(v + 1) == W1(v) + C1(v), C1(v) == C0(v) + z3.If(key == v, 1, 0)]
    c.lemma('keys below v: base', W1(0) == W0(0) + z3.If(key < 0, 1, 0), W0(0) == 0, W1(0) == 0, key >= 0)
    c.lemma('keys below v: step', W1(v + 1) == W0(v + 1) + z3.If(key < v + 1, 1, 0), W1(v) == W0(v) + z3.If(key < v, 1, 0), *st)
    c.lemma('no keys yet: step', W0(v + 1) == 0, W0(v) == 0, C0(v) == 0, W0(v + 1) == W0(v) + C0(v))
    c.lemma('every key is below K: step', W1(K) == i + 1, W0(K) == i, W1(K) == W0(K) + z3.If(key < K, 1, 0), key < K)
    c.lemma('sums of counts grow: step', z3.And(LESS(u) <= LESS(v + 1), 0 <= LESS(v + 1)), LESS(u) <= LESS(v), 0 <= LESS(v), LESS(v + 1) == LESS(v) + x, x >= 0)
    # rank of element i with key u: LESS(u) + (earlier elements with key u)
    c.lemma('a rank lies among those of its key', z3.And(LESS(u) <= p, p < LESS(u + 1), 0 <= p, p < n), p == LESS(u) + x, 0 <= x, x < y, LESS(u + 1) == LESS(u) + y, LESS(u + 1) <= LESS(K), LESS(K) == n, 0 <= LESS(u))
    mono = [im(a < b, LESS(a + 1) <= LESS(b)) for a, b in ((u, v), (v, u))]
    among = [LESS(u) <= p, p < LESS(u + 1), LESS(v) <= q, q < LESS(v + 1)]
    c.lemma('ranks follow key, then position', (p < q) == z3.Or(u < v, z3.And(u == v, i < j)), *mono, *among, p == LESS(u) + x, q == LESS(v) + y, im(z3.And(u == v, i < j), x < y), im(z3.And(u == v, j < i), y < x), im(i == j, z3.And(u == v, x == y)))
    c.lemma('ranks are distinct', p != q, (p < q) == z3.Or(u < v, z3.And(u == v, i < j)), (q < p) == z3.Or(v < u, z3.And(u == v, j < i)), i != j)
    c.lemma('places by symbol', z3.And((u < v) == (p < LESS(v)), (u <= v) == (p < LESS(v + 1))), *mono, *among[:2], LESS(v) <= LESS(v + 1), im(u == v, LESS(u) == LESS(v)))
    # a strictly increasing map of [0, N) to itself is the identity
    c.lemma('increasing map, from below: base', h(0) >= 0, h(0) >= 0)
    c.lemma('increasing map, from below: step', h(k + 1) >= k + 1, h(k) >= k, h(k) < h(k + 1))
    c.lemma('increasing map, from above: base', h(N - 1) <= N - 1, h(N - 1) < N)
    c.lemma('increasing map, from above: step', h(k) <= k, h(k + 1) <= k + 1, h(k) < h(k + 1))
    # rows are the rotations in lexicographic order; LT(p, q): rotation at p before rotation at q
    LT = z3.Function('LT', I, I, z3.BoolSort())
    R, prev, z, last, POS = (z3.Function(f, I, I) for f in ('R', 'prev', 'z', 'last', 'POS'))
    lt = LT(prev(p), prev(q)) == z3.Or(z(prev(p)) < z(prev(q)), z3.And(z(prev(p)) == z(prev(q)), LT(p, q)))
    ro = [LT(p, q) == (R(p) < R(q)), LT(prev(p), prev(q)) == (R(prev(p)) < R(prev(q))), last(R(p)) == z(prev(p)), last(R(q)) == z(prev(q))]
    pos = (POS(R(p)) < POS(R(q))) == z3.Or(last(R(p)) < last(R(q)), z3.And(last(R(p)) == last(R(q)), R(p) < R(q)))
    c.lemma('ranks of rows are ordered as the rotations before them', (POS(R(p)) < POS(R(q))) == (R(prev(p)) < R(prev(q))), lt, pos, *ro)
    # the map R(prev p) -> POS(R(p)) is therefore increasing, hence the identity: POS(R(p)) == R(prev(p))
    # what transform leaves is what invert expects
    A, Z = z3.Array('A', I, I), z3.Array('Z', I, I)     # Z: last column
    c.lemma('transform meets the precondition of the inverse', Sel(A, k) + 1 == Sel(Z, k + z3.If(k >= w, 1, 0)), 0 <= k, k < N - 1, 0 <= w, w < N,
            im(z3.And(0 <= k, k < w), Sel(A, k) == Sel(Z, k) - 1), im(z3.And(w < k + 1, k + 1 < N), Sel(A, k + 1 - 1) == Sel(Z, k + 1) - 1))
    pr = z3.If(x == 0, N - 1, x - 1)
    c.lemma('the row of the text ends in the terminator', pr == 0, N >= 1, x == z3.If(N == 1, 0, 1))


P.native = dict(src='c08.cpp', secs=3, tsecs=60)
