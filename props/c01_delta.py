from core import *
P = Property('C01', 'Delta transform round trip')
P.modules = {'delta': dict(src='src/hzip_core/preprocessor/delta.cpp')}
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select


def common(c):
    c.n = n = c.sym('n', 64)
    c.assume(ULE(n, 1 << 60))
    c.a = c.array('a', 4, n)
    c.A0 = c.arr(c.a)
    this = c.cells('this', 16, {0: ('p', Ptr(c.a)), 8: (64, n)})
    c.args = [Ptr(this)]
    c.this = this


def frame(c, t):
    c.ensure(t, 'object unchanged: length', c.peek(t, Ptr(c.this, 8), 64) == c.n)
    p = c.eng.peekp(t, Ptr(c.this, 0))
    c.ensure(t, 'object unchanged: data pointer', z3.BoolVal(isinstance(p, Ptr) and p.obj is c.a and p.c == 0 and not p.ix))


@P.unit('transform', 'hztrans::DeltaTransformer::transform()', 'delta')
def transform(c):
    common(c)
    A0 = c.A0
    n, a = c.n, c.a
    c.auto(lambda L, v: {
        'in range': ULE(v, n),
        'differences from v': c.fa(lambda k: z3.Implies(z3.And(ULE(v, k), ULT(0, k), ULT(k, n)), Sel(L.arr(a), k) == Sel(A0, k) - Sel(A0, k - 1))),
        'untouched below v': c.fa(lambda k: z3.Implies(z3.Or(ULT(k, v), k == 0), Sel(L.arr(a), k) == Sel(A0, k))),
    }, hi=n)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        B = c.arr(c.a, st=t)
        c.ensure(t, 'differences', c.fa(lambda k: z3.Implies(ULT(k, c.n), Sel(B, k) == z3.If(k == 0, Sel(A0, k), Sel(A0, k) - Sel(A0, k - 1)))))
        frame(c, t)


@P.unit('invert', 'hztrans::DeltaTransformer::invert()', 'delta')
def invert(c):
    common(c)
    A0 = c.A0
    n, a = c.n, c.a
    c.auto(lambda L, v: {
        'positive': v != 0,
        'in range': z3.Or(ULE(v, n), v == 1),
        'sums below v': c.fa(lambda k: z3.Implies(z3.And(ULT(k, v), ULT(k, n)), Sel(L.arr(a), k) == z3.If(k == 0, Sel(A0, k), Sel(A0, k) + Sel(L.arr(a), k - 1)))),
        'untouched from v': c.fa(lambda k: z3.Implies(z3.And(ULE(v, k), ULT(k, n)), Sel(L.arr(a), k) == Sel(A0, k))),
    }, hi=n + 1)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        B = c.arr(c.a, st=t)
        c.ensure(t, 'running sums', c.fa(lambda k: z3.Implies(ULT(k, c.n), Sel(B, k) == z3.If(k == 0, Sel(A0, k), Sel(A0, k) + Sel(B, k - 1)))))
        frame(c, t)


@P.lemma_unit('round trip')
def roundtrip(c):
    """composition of the two contracts, by induction on the index"""
    A, B, C = (z3.Array(x, z3.BitVecSort(64), z3.BitVecSort(32)) for x in 'ABC')
    n, k = z3.BitVecs('n k', 64)
    T = lambda k: z3.Implies(ULT(k, n), Sel(B, k) == z3.If(k == 0, Sel(A, k), Sel(A, k) - Sel(A, k - 1)))
    I = lambda k: z3.Implies(ULT(k, n), Sel(C, k) == z3.If(k == 0, Sel(B, k), Sel(B, k) + Sel(C, k - 1)))
    c.lemma('invert after transform restores element 0', z3.Implies(ULT(0, n), Sel(C, z3.BitVecVal(0, 64)) == Sel(A, z3.BitVecVal(0, 64))), T(z3.BitVecVal(0, 64)), I(z3.BitVecVal(0, 64)))
    c.lemma('invert after transform restores element k+1 given element k', Sel(C, k + 1) == Sel(A, k + 1), T(k + 1), I(k + 1), ULT(k, n), ULT(k + 1, n), k + 1 != 0, Sel(C, k) == Sel(A, k))
    # and the other order
    D = z3.Array('D', z3.BitVecSort(64), z3.BitVecSort(32))
    J = lambda k: z3.Implies(ULT(k, n), Sel(C, k) == z3.If(k == 0, Sel(A, k), Sel(A, k) + Sel(C, k - 1)))
    W = lambda k: z3.Implies(ULT(k, n), Sel(D, k) == z3.If(k == 0, Sel(C, k), Sel(C, k) - Sel(C, k - 1)))
    c.lemma('transform after invert restores every element', z3.Implies(ULT(k, n), Sel(D, k) == Sel(A, k)), J(k), W(k))


P.native = dict(src='c01.cpp', repo=['src/hzip_core/preprocessor/delta.cpp'], secs=2, tsecs=60)
