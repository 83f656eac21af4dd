from core import *
import importlib
P = Property('C10', 'rANS frequency tables')
import c09_rans_step as c9
P.modules = {'r': c9.P.modules['r']}
P.modules = {'r': dict(P.modules['r'], text=P.modules['r']['text'] + r'''
extern "C" {
void d_table(hzrans64_t *s, const uint64_t *f) { hzrans64_create_ftable_nf(s, f); }
void d_seq(hzrans64_t *s, uint64_t sym) { hzrans64_add_to_seq(s, sym); }
uint64_t d_inv(hzrans64_t *s, uint64_t v) { return hzrans64_inv_bs(s, v); }
}
''')}
locs, Sel = c9.locs, z3.Select
I = z3.IntSort()


def prefix(c, name, arr):
    """prefix sums of arr: f(i) = arr[0] + .. + arr[i-1]"""
    f = z3.Function(name, I, I)
    c.assume(f(0) == 0, c.fa(lambda k: z3.Implies(k >= 0, f(k + 1) == f(k) + Sel(arr, k))))
    return f


def table_unit(alias):
    @P.unit('normalisation%s' % (', counts in the table itself' if alias else ''), 'd_table', 'r', mode='int')
    def u(c):
        c.o = o = locs(c)
        c.n = n = c.sym('n', 64)
        c9.scale(c)
        p = c.p
        c.assume(1 <= n, n <= p)
        ft = c.array('ftable', 8, n)
        T0 = c.arr(ft)
        fq = ft if alias else c.array('freq', 8, n)
        F0 = c.arr(fq)
        s = c.cells('state', o['sizeof'], {o['size']: (64, n), o['scale']: (64, c.scale), o['ftable']: ('p', Ptr(ft))})
        c.args = [Ptr(s), Ptr(fq)]
        Pf = prefix(c, 'Pf', F0)
        Pt = Pf if alias else prefix(c, 'Pt', T0)
        SUM = n + Pf(n)
        mf = p - n
        c.assume(SUM < 1 << 64)       # and SUM * mf < 2^64: used only through m(k) < 2^64 below (lemma: products fit 64 bits)
        # prefix sums of a non-negative table grow (lemma below), so every count is at most their total
        c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(Pf(k) >= 0, Pf(k) <= Pf(n)))))
        c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(F0, k) + 1 <= SUM)))
        if not alias:
            c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(T0, k) < W)))      # scratch contents are irrelevant; bounded so that their sum is a number
        # ghost: the sum of the table, kept up to date by every store to it
        c.st.ghost['G'] = Pt(n)

        def on_store(eng, st, q, v, ty):
            if isinstance(q, Ptr) and q.obj is ft:
                st.setg('G', st.ghost['G'] - eng.peek(st, q, 64) + v)
        c.eng.opts['on_store'] = on_store

        # the share of symbol k before residues: uninterpreted product and quotient, facts from the lemmas below
        c.eng.opts['nl'] = True
        MUL, DIV = c.eng.uf('MUL', 2), c.eng.uf('DIV', 2)
        m = lambda k: MUL(Sel(F0, k) + 1, mf)
        d = lambda k: DIV(m(k), SUM)
        c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(MUL(mf, Sel(F0, k) + 1) == m(k), m(k) >= 0, m(k) < 1 << 64, d(k) >= 0, d(k) <= mf))))
        D = z3.Function('D', I, I)          # sum of the first k shares
        c.assume(D(0) == 0, c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(D(k + 1) == D(k) + d(k), D(k) >= 0, D(k) <= D(k + 1), D(k + 1) <= mf))))
        c.assume(D(n) >= 0, D(n) <= mf)

        def t(L, v):
            A, Fc = L.arr(ft), L.arr(fq)
            g = L.st.ghost['G']
            r = {'in range': v <= n, 'below n': v < n,
                 'positive below': c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < v, k < n), z3.And(Sel(A, k) >= 1, Sel(A, k) <= p))),
                 'table from here': c.fa(lambda k: z3.Implies(z3.And(v <= k, k < n), Sel(A, k) == Sel(T0, k))),
                 'counts from here': c.fa(lambda k: z3.Implies(z3.And(v <= k, k < n), Sel(Fc, k) == Sel(F0, k))),
                 'residue added': g + v == p, 'residue bound': z3.And(v >= 0, v <= mf),
                 'all in range': c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(Sel(A, k) >= 1, Sel(A, k) + v <= 2 * p))),
                 }
            for nm, w, w0, wd in L.vars():
                r['%s sums counts' % nm] = v == n + Pf(w)
                r['%s shares' % nm] = v == D(w)
                r['%s total' % nm] = g == v + w + (Pt(n) - Pt(w))
            return r
        c.auto(t, hi=n)
        yield
        for tt in c.terminals:
            c.ensure(tt, 'returns normally', z3.BoolVal(tt.done == 'ret'))
            A = c.arr(ft, st=tt)
            c.ensure(tt, 'every symbol gets a share', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(A, k) >= 1)))
            c.ensure(tt, 'the shares add up to 2^scale', tt.ghost['G'] == p)
            c.ensure(tt, 'alphabet size kept', c.peek(tt, Ptr(s, o['size']), 64) == n)
            c.ensure(tt, 'scale kept', c.peek(tt, Ptr(s, o['scale']), 64) == c.scale)
            if not alias:
                c.ensure(tt, 'counts kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(c.arr(fq, st=tt), k) == Sel(F0, k))))


W = 1 << 32
table_unit(False)
table_unit(True)


def tableset(c):
    c.o = o = locs(c)
    c.n = n = c.sym('n', 64)
    c.assume(n < 1 << 31)
    c.ft = c.array('ftable', 8, n)
    c.T = c.arr(c.ft)
    c.Pt = prefix(c, 'Pt', c.T)
    c.s = c.cells('state', o['sizeof'], {o['size']: (64, n), o['ftable']: ('p', Ptr(c.ft))})
    c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(c.Pt(k) >= 0, c.Pt(k) <= W))))


@P.unit('interval of a symbol', 'd_seq', 'r', mode='int')
def seq(c):
    tableset(c)
    sym = c.sym('symbol', 64)
    n, Pt, o, s = c.n, c.Pt, c.o, c.s
    c.assume(sym < n)
    c.args = [Ptr(s), sym]
    c.auto(lambda L, v: {'in range': v <= sym, 'sum': c.peek(L.st, Ptr(s, o['bs']), 64) == Pt(v)} | {'%s sum' % nm: v == Pt(w) for nm, w, _, _ in L.vars()}, hi=sym)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'length is the share of the symbol', c.peek(t, Ptr(s, o['ls']), 64) == Sel(c.T, sym))
        c.ensure(t, 'start is the sum of the shares before it', c.peek(t, Ptr(s, o['bs']), 64) == Pt(sym))
        c.ensure(t, 'table kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(c.arr(c.ft, st=t), k) == Sel(c.T, k))))


@P.unit('symbol of a point', 'd_inv', 'r', mode='int')
def inv(c):
    tableset(c)
    n, Pt, o, s = c.n, c.Pt, c.o, c.s
    x = c.sym('point', 64)
    c.assume(n >= 1, x < Pt(n))
    c.args = [Ptr(s), x]
    c.auto(lambda L, v: {'in range': v <= n, 'starts below': z3.Or(v == 0, Pt(v - 1) <= x)} | {'%s sum' % nm: v == Pt(w) for nm, w, _, _ in L.vars()}, hi=n)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the symbol exists', z3.And(0 <= t.ret, t.ret < n))
        c.ensure(t, 'its interval contains the point', z3.And(Pt(t.ret) <= x, x < Pt(t.ret + 1)))
        c.ensure(t, 'table kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(c.arr(c.ft, st=t), k) == Sel(c.T, k))))


@P.lemma_unit('arithmetic')
def arith(c):
    S, m, x, y, f, k, q, r, a = z3.Ints('S m x y f k q r a')
    c.lemma('floor division times divisor', z3.And(S * (a / S) <= a, a / S >= 0), S >= 1, a >= 0)
    c.lemma('a share is at most everything', z3.Implies(f * m < (m + 1) * S, (f * m) / S <= m), S >= 1, f >= 1, m >= 0, q == (f * m) / S, S * q + r == f * m, r >= 0, r < S, z3.Implies(q - m >= 1, S * (q - m) >= S), z3.And(f * m <= S * m))
    c.lemma('f * m <= S * m', f * m <= S * m, f <= S, m >= 0)
    c.lemma('e >= 1 gives S*e >= S', z3.Implies(x >= 1, S * x >= S), S >= 1)
    c.lemma('cancel a positive factor', z3.Implies(S * x <= m * S, x <= m), S >= 1, z3.Implies(x - m >= 1, S * (x - m) >= S))
    c.lemma('next partial product', m * (x + f + k + 1) == m * (x + k) + (f + 1) * m)
    c.lemma('partial products stay below the total', m * x <= m * y, m >= 0, x <= y)
    c.lemma('products fit 64 bits', z3.And(f * m >= 0, f * m < 1 << 64), f >= 1, m >= 0, f <= S, f * m <= S * m, S * m < 1 << 64)
    c.lemma('the total bounds each product', f * m <= S * m, f <= S, m >= 0)
    Pf, D = z3.Function('Pf', I, I), z3.Function('D', I, I)
    # with share d_k = floor((f_k + 1) * m / S):  S * D(k) <= m * (Pf(k) + k), by induction; at k = n the right side is m * S
    c.lemma('shares of the first k symbols: base', S * D(0) <= m * (Pf(0) + 0), D(0) == 0, Pf(0) == 0)
    c.lemma('shares of the first k symbols: step', S * D(k + 1) <= m * (Pf(k + 1) + k + 1), S * D(k) <= m * (Pf(k) + k), D(k + 1) == D(k) + q, Pf(k + 1) == Pf(k) + f, S * q <= (f + 1) * m)
    c.lemma('all shares fit', x <= m, S >= 1, S * x <= m * S, z3.Implies(x - m >= 1, S * (x - m) >= S))
    c.lemma('prefix sums grow: step', z3.And(Pf(k + 1) >= Pf(k)), Pf(k + 1) == Pf(k) + x, x >= 0)
    A, B = z3.Array('A', I, I), z3.Array('B', I, I)
    PA, PB = z3.Function('PA', I, I), z3.Function('PB', I, I)
    i, v = z3.Ints('i v')
    # storing v at i changes the sum of the first k elements by v - A[i] exactly when i < k: induction step
    at = lambda PB, PA, k: PB(k) == PA(k) + z3.If(i < k, v - Sel(A, i), 0)
    c.lemma('sum after a store: base', at(PB, PA, z3.IntVal(0)), PA(0) == 0, PB(0) == 0, i >= 0)
    c.lemma('sum after a store: step', at(PB, PA, k + 1), i >= 0, k >= 0, at(PB, PA, k), B == z3.Store(A, i, v), PA(k + 1) == PA(k) + Sel(A, k), PB(k + 1) == PB(k) + Sel(B, k))


P.native = dict(src='c10.cpp', repo=['src/hzip_core/kernel/hzrans/hzrans64.cpp'], secs=2, tsecs=40)
