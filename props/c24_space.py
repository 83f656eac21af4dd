from core import *
from arch import *
P = Property('C24', 'Archive space is never given out twice')
P.modules = {'a': MODULE}


@P.unit('allocation', 'd_alloc', 'a', mode='int')
def alloc(c):
    a = Archive(c, 'mem')
    a.fixed()
    a.assume_inv(c.st)
    n = c.sym('length', 64)
    c.assume(n < LIM)
    o = c.o
    out = c.cells('out', o['osize'])
    c.args = [Ptr(a.a), n, Ptr(out)]
    FS, FL, K = a.FS0, a.FL0, a.K
    fits = lambda d: z3.Or(d == 0, d >= 0x48)
    big = (1 << 64) - 1

    def t(L, v):
        r = {'in range': v <= a.nf0}
        vs = L.vars()
        for nf, f, _, wf in vs:
            if wf == 64:
                continue
            r['%s is a flag' % nf] = f <= 1
            for nx, x, _, wx in vs:
                for nd, d, _, wd in vs:
                    if wx == 64 and wd == 64 and nx != nd:
                        r['%s: %s fits with %s left' % (nf, nx, nd)] = z3.Implies(f != 0, z3.And(0 <= x, x < v, Sel(FL, x) >= n, Sel(FL, x) - n == d, fits(d)))
            r['%s: none so far fits' % nf] = z3.Implies(f == 0, z3.Implies(z3.And(0 <= K, K < v), z3.Not(z3.And(Sel(FL, K) >= n, fits(Sel(FL, K) - n)))))
            for nd, d, _, wd in vs:
                r['%s: %s untouched' % (nf, nd)] = z3.Implies(f == 0, d == big)
        return r
    c.auto(t, hi=a.nf0)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        if t.done != 'ret':
            continue
        some = c.peek(t, Ptr(out, o['some']), 8)
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'end of file kept', a.eof(t) == a.eof0)
        c.ensure(t, 'gives up only when no fragment fits', z3.Implies(z3.And(some == 0, 0 <= K, K < a.nf0), z3.Not(z3.And(Sel(FL, K) >= n, fits(Sel(FL, K) - n)))))
        if c.eng.check(t, some != 0, 2000) != 'unsat':
            r = c.peek(t, Ptr(out, o['inner']), 64)
            m = 0x48 + n
            nf, s, l = a.nf(t), Sel(a.fs(t), K), Sel(a.fl(t), K)
            inr = z3.And(some != 0, 0 <= K, K < nf)
            c.ensure(t, 'the space lies in the file', z3.Implies(some != 0, z3.And(r >= 0, r + m <= a.eof0)))
            c.ensure(t, 'the space holds no live data', z3.Implies(some != 0, disj(r, m, a.q0, a.w0)))
            c.ensure(t, 'the space is no longer free', z3.Implies(inr, disj(r, m, s, 0x48 + l)))


register(P, "model state is written", "blob is written", "model state is removed", "blob is removed", "file entry is written", "model state is installed", "model state is uninstalled", "file is removed")
P.native = {'src': 'c24.cpp', 'repo': ['src/hzip_storage/archive/archive.cpp', 'src/hzip_core/blob/blob.cpp'], 'libs': ['-lcrypto'], 'secs': 6, 'tsecs': 60}
from scan import register_scan
register_scan(P, "archive is closed", "archive is loaded")
