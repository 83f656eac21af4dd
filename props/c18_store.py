from core import *
P = Property('C18', 'Stored data is kept byte for byte')
P.modules = {'u': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_codec/uncompressed/uncompressed.cpp>
#include <hzip_core/blob/blob.cpp>
using B = HZ_Blob; using PB = rainman::ptr<HZ_Blob>; using P8 = rainman::ptr<uint8_t>; using PM = rainman::ptr<HZ_MState>;
extern "C" {
void d_loc(uint64_t *o) {
  o[0] = offsetof(B, data) + offsetof(P8, p); o[1] = offsetof(B, data) + offsetof(P8, n); o[2] = offsetof(B, size); o[3] = offsetof(B, o_size); o[4] = offsetof(B, mstate_id);
  o[5] = offsetof(B, status); o[6] = offsetof(B, mstate) + offsetof(PM, p); o[7] = offsetof(B, mstate) + offsetof(PM, n); o[8] = sizeof(B); o[9] = offsetof(HZ_MState, alg);
  o[10] = sizeof(HZ_MState); o[11] = offsetof(B, header) + offsetof(HZ_BlobHeader, raw); }
void d_compress(hzcodec::Uncompressed *u, PB *in, PB *out) { new(out) PB(u->hzcodec::Uncompressed::compress(*in)); }
void d_decompress(hzcodec::Uncompressed *u, PB *in, PB *out) { new(out) PB(u->hzcodec::Uncompressed::decompress(*in)); }
void d_train(hzcodec::Uncompressed *u, PB *in) { u->hzcodec::Uncompressed::train(*in); }
void d_evaluate(B *b, P8 *orig) { b->evaluate(*orig); }
}
''', flags=['-fno-access-control'])}
NAMES = ['data', 'data_n', 'size', 'o_size', 'mstate_id', 'status', 'mstate', 'mstate_n', 'sizeof', 'alg', 'msizeof', 'raw']
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


def blob(c):
    c.o = o = locs(c)
    c.n, c.on, c.mid = c.sym('size', 64), c.sym('o_size', 64), c.sym('mstate_id', 64)
    c.cap = c.sym('capacity', 64)
    c.assume(ULT(c.cap, 1 << 60), ULE(c.n, c.cap))
    c.data = c.array('data', 1, c.cap)
    c.A0 = c.arr(c.data)
    c.alg = c.sym('alg', 32)
    c.ms = c.cells('mstate', o['msizeof'], {o['alg']: (32, c.alg)})
    c.st0 = c.sym('status', 8)
    c.assume(ULE(c.st0, 1))
    c.b = c.cells('blob', o['sizeof'], {o['data']: ('p', Ptr(c.data)), o['data_n']: (64, c.cap), o['size']: (64, c.n), o['o_size']: (64, c.on), o['mstate_id']: (64, c.mid),
                                        o['status']: (8, c.st0), o['mstate']: ('p', Ptr(c.ms)), o['mstate_n']: (64, 1)})
    c.u = c.cells('codec', 64)
    c.inp = c.cells('in', 16, {0: ('p', Ptr(c.b)), 8: (64, 1)})
    c.out = c.cells('out', 16)


def same(p, o):
    return isinstance(p, Ptr) and p.obj is o and p.c == 0 and not p.ix


def input_kept(c, t):
    B = c.arr(c.data, st=t)
    c.ensure(t, 'input data unchanged', c.fa(lambda k: z3.Implies(ULT(k, c.cap), Sel(B, k) == Sel(c.A0, k))))
    o = c.o
    c.ensure(t, 'input blob unchanged', z3.And(c.peek(t, Ptr(c.b, o['size']), 64) == c.n, c.peek(t, Ptr(c.b, o['o_size']), 64) == c.on, c.peek(t, Ptr(c.b, o['status']), 8) == c.st0,
                                               c.peek(t, Ptr(c.b, o['mstate_id']), 64) == c.mid, z3.BoolVal(same(c.eng.peekp(t, Ptr(c.b, o['data'])), c.data) and same(c.eng.peekp(t, Ptr(c.b, o['mstate'])), c.ms))))


def copies(c):
    c.eng.opts['alloc_elem'] = 1
    blob(c)
    n, A0 = c.n, c.A0

    def T(L, v):
        d = {'in range': ULE(v, n)}
        for i, b in enumerate(c.blocks(L.st)):
            D = c.arr(b, st=L.st)
            d['copied to block %d' % i] = c.fa(lambda k, D=D: z3.Implies(ULT(k, v), Sel(D, k) == Sel(A0, k)))
        return d
    c.auto(T, hi=n)
    c.args = [Ptr(c.u), Ptr(c.inp), Ptr(c.out)]


def copied(c, t):
    o = c.o
    c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
    if t.done != 'ret':
        return
    r = c.eng.peekp(t, Ptr(c.out))
    ok = isinstance(r, Ptr) and r.obj is not None and r.obj is not c.b and r.c == 0
    c.ensure(t, 'the result is a new blob', z3.BoolVal(ok))
    if not ok:
        return
    F = lambda k, w=64: c.peek(t, Ptr(r.obj, o[k]), w)
    c.ensure(t, 'sizes are kept', z3.And(F('size') == c.n, F('o_size') == c.on))
    c.ensure(t, 'marked as not compressed', F('status', 8) == 0)
    c.ensure(t, 'model state is passed on', z3.BoolVal(same(c.eng.peekp(t, Ptr(r.obj, o['mstate'])), c.ms)))
    d = c.eng.peekp(t, Ptr(r.obj, o['data']))
    c.ensure(t, 'the data is in a block of its own', z3.BoolVal(isinstance(d, Ptr) and d.obj is not None and d.obj is not c.data and d.c == 0 and not d.ix and t.mem[d.obj.oid].alive))
    c.ensure(t, 'as long as the input', F('data_n') == c.n)
    if isinstance(d, Ptr) and d.obj is not None and d.obj is not c.data and d.obj in c.blocks(t):
        D = c.arr(d.obj, st=t)
        c.ensure(t, 'every byte is kept', c.fa(lambda k: z3.Implies(ULT(k, c.n), Sel(D, k) == Sel(c.A0, k))))
    else:
        c.ensure(t, 'every byte is kept', z3.BoolVal(False))
    input_kept(c, t)


@P.unit('compress', 'd_compress', 'u')
def compress(c):
    copies(c)
    yield
    for t in c.terminals:
        copied(c, t)


@P.unit('decompress', 'd_decompress', 'u')
def decompress(c):
    copies(c)
    yield
    for t in c.terminals:
        copied(c, t)


@P.unit('train', 'd_train', 'u')
def train(c):
    blob(c)
    c.args = [Ptr(c.u), Ptr(c.inp)]
    yield
    for t in c.terminals:
        c.ensure(t, 'refused with an invalid-operation error', z3.BoolVal(t.done == 'exc' and 'InvalidOperationException' in str(t.exc[0])))
        input_kept(c, t)


@P.unit('evaluate', 'd_evaluate', 'u')
def evaluate(c):
    blob(c)
    o = c.o
    m = c.sym('original_n', 64)
    c.assume(ULT(m, 1 << 60))
    orig = c.array('original', 1, m)
    O0 = c.arr(orig)
    c.args = [Ptr(c.b), Ptr(c.cells('optr', 16, {0: ('p', Ptr(orig)), 8: (64, m)}))]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        F = lambda k, w=64: c.peek(t, Ptr(c.b, o[k]), w)
        d, s = c.eng.peekp(t, Ptr(c.b, o['data'])), c.eng.peekp(t, Ptr(c.b, o['mstate']))
        smaller = ULT(c.n, c.on)
        c.ensure(t, 'status tells whether the blob shrank', F('status', 8) == z3.If(smaller, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        c.ensure(t, 'size is the smaller of both sizes', F('size') == z3.If(smaller, c.n, c.on))
        c.ensure(t, 'original size kept', F('o_size') == c.on)
        c.ensure(t, 'a blob that shrank keeps its data and model state', z3.Implies(smaller, z3.BoolVal(same(d, c.data) and same(s, c.ms))))
        c.ensure(t, 'a blob that did not shrink holds the original data', z3.Implies(z3.Not(smaller), z3.And(z3.BoolVal(same(d, orig)), F('data_n') == m)))
        if same(s, c.ms):
            c.ensure(t, 'a blob that did not shrink has an empty model state', z3.Implies(z3.Not(smaller), c.alg == 0))
        else:
            ok = isinstance(s, Ptr) and s.obj is not None and s.c == 0
            c.ensure(t, 'a blob that did not shrink has an empty model state', z3.And(z3.BoolVal(ok), c.peek(t, Ptr(s.obj, o['alg']), 32) == 0) if ok else z3.BoolVal(False))
        c.ensure(t, 'the replaced model state itself is not changed', c.peek(t, Ptr(c.ms, o['alg']), 32) == c.alg)
        B = c.arr(orig, st=t)
        c.ensure(t, 'original data unchanged', c.fa(lambda k: z3.Implies(ULT(k, m), Sel(B, k) == Sel(O0, k))))


P.native = dict(src='c18.cpp', repo=['src/hzip_codec/uncompressed/uncompressed.cpp', 'src/hzip_core/blob/blob.cpp'], secs=2, tsecs=40)
