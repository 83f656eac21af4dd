from core import *
import strs
P = Property('C15', 'Handshake token scrambling')
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
P.modules = {'u': dict(text=r'''
#include <cstdint>
#include <hzip_core/utils/utils.h>
extern "C" {
uint64_t d_token(const std::string *p, uint64_t x) { return hz_enc_token(*p, x); }
}
''', keep=strs.STRKEEP)}


def locals_(st, size):
    """local variables of the given size held in memory by the current function"""
    out = []
    for v in st.frames[-1].env.values():
        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'stack' and not v.c and not v.ix and v.obj not in out:
            rg = st.mem[v.obj.oid].regs
            if len(rg) == 1 and rg[0].kind == 'cells' and rg[0].length == size:
                out.append(v.obj)
    return out


def unit():
    @P.unit('scrambling', 'd_token', 'u')
    def u(c):
        strs.install(c)
        n, x = c.sym('n', 64), c.sym('x', 64)
        c.assume(ULT(n, 1 << 31))
        s, a = strs.mk(c, c.st, 'password', n)
        A = c.arr(a)
        c.args = [Ptr(s), x]
        # the key made of the first i characters: character j is added (xor) to byte j mod 8
        K = z3.Function('K', z3.BitVecSort(64), z3.BitVecSort(64))
        c.assume(K(z3.BitVecVal(0, 64)) == 0, c.fa(lambda k: z3.Implies(ULT(k, n), K(k + 1) == K(k) ^ (z3.ZeroExt(56, Sel(A, k)) << ((k & 7) << 3)))))

        def t(L, v):
            r = {'in range': ULE(v, n)}
            for i, o in enumerate(locals_(L.st, 8)):
                cur = c.eng.peek(L.st, Ptr(o), 64)
                r['key so far %d' % i] = cur == x ^ K(v)
            return r
        c.auto(t, hi=n)
        yield
        for t_ in c.terminals:
            c.ensure(t_, 'returns normally', z3.BoolVal(t_.done == 'ret'))
            if t_.done == 'ret':
                c.ensure(t_, 'token xor a key that depends on the password alone', t_.ret == x ^ K(n))
                c.ensure(t_, 'password kept', c.fa(lambda k: z3.Implies(ULE(k, n), Sel(c.arr(a, st=t_), k) == Sel(A, k))))


unit()


@P.lemma_unit('scrambling is its own inverse')
def inv(c):
    x, y, k = z3.BitVecs('x y K', 64)
    c.lemma('twice gives the token back', (x ^ k) ^ k == x)
    c.lemma('distinct tokens stay distinct', (x ^ k) != (y ^ k), x != y)


P.native = dict(src='c15.cpp', secs=2, tsecs=30)
