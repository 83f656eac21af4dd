from core import *
P = Property('C16', 'Path validation accepts exactly the well-formed archive paths')
P.modules = {'v': dict(text=r'''
#include <cstdint>
#include <cstdio>
#include <string>
#include <hzip_core/utils/validation.h>
extern "C" void d_validate(const std::string *p) { hz_validate_path(*p); }
''')}
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select


@P.unit('validate', 'd_validate', 'v', min_paths=5)
def validate(c):
    n = c.sym('n', 64)
    c.assume(ULT(n, 1 << 62))
    s = c.array('chars', 1, n + 1)
    S0 = c.arr(s)
    c.assume(Sel(S0, n) == 0)
    o = c.cells('string', 32, {0: ('p', Ptr(s)), 8: (64, n), 16: (64, n)})
    c.args = [Ptr(o)]
    ch = lambda k: Sel(S0, k)
    plain = lambda k: z3.And(ch(k) != 0, ch(k) != ord('\\'), ch(k) != ord(' '))
    noslash = lambda k: z3.Not(z3.And(ch(k) == ord('/'), ch(k + 1) == ord('/')))
    start = z3.And(n != 0, ch(z3.BitVecVal(0, 64)) == ord('/'))
    c.auto(lambda L, v: {
        'in range': ULE(v, n),
        'plain so far': c.fa(lambda k: z3.Implies(ULT(k, v), plain(k))),
        'no // so far': c.fa(lambda k: z3.Implies(z3.And(ULT(k, v), ULT(k + 1, n)), noslash(k))),
    }, hi=n)
    yield
    for t in c.terminals:
        if t.done == 'ret':
            c.ensure(t, 'accepted path starts with a slash', start)
            c.ensure(t, 'accepted path has no forbidden character', c.fa(lambda k: z3.Implies(ULT(k, n), plain(k))))
            c.ensure(t, 'accepted path has no repeated slash', c.fa(lambda k: z3.Implies(z3.And(ULT(k, n), ULT(k + 1, n)), noslash(k))))
        else:
            c.ensure(t, 'rejection is a validation error', z3.BoolVal('ValidationError' in str(t.exc[0])))
            # rejected only if some clause is violated
            st = t.fork()
            st.assume(start)
            st.fa.append(c.fa(lambda k: z3.Implies(ULT(k, n), z3.And(plain(k), z3.Implies(ULT(k + 1, n), noslash(k))))))
            c.ensure(st, 'only malformed paths are rejected', z3.BoolVal(False))
        c.ensure(t, 'path unchanged', c.fa(lambda k: z3.Implies(ULE(k, n), Sel(c.arr(s, st=t), k) == ch(k))))


P.native = dict(src='c16.cpp', secs=2, tsecs=40)
