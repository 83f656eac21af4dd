from core import *
from lib import trust
import re
P = Property('C11', 'rANS streams decode to what was encoded')
P.modules = {'h': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/kernel/hzrans/hzrans64_codec.cpp>
using E = hzrans64_encoder; using D = hzrans64_decoder; using R = rainman::ptr<hzrans64_t>; using S = hzrans64_t;
extern "C" {
void hzv_cross(hzrans64_t *s);
static void cross(const rainman::ptr<hzrans64_t> &s, const rainman::ptr<HZ_Stack<uint32_t>> &) { hzv_cross(s.pointer()); }
void d_loc(uint64_t *o) {
  o[0] = offsetof(S, x); o[1] = offsetof(S, lower_bound); o[2] = offsetof(S, ls); o[3] = offsetof(S, bs); o[4] = offsetof(S, count); o[5] = sizeof(S);
  o[6] = offsetof(E, state) + offsetof(R, p); o[7] = offsetof(E, state) + offsetof(R, n); o[8] = offsetof(E, index); o[9] = offsetof(E, size); o[10] = sizeof(E);
  o[11] = offsetof(D, state) + offsetof(R, p); o[12] = offsetof(D, state) + offsetof(R, n); o[13] = offsetof(D, size); o[14] = sizeof(D);
  o[15] = offsetof(hzrans64_encoder_output, data); o[16] = offsetof(hzrans64_encoder_output, n); o[17] = offsetof(hzrans64_decoder_output, data); o[18] = offsetof(hzrans64_decoder_output, n);
  o[19] = sizeof(hzrans64_encoder_output); o[20] = sizeof(hzrans64_decoder_output); }
void d_ectors(E *e) { new(e) E(); }
void d_dctors(D *d) { new(d) D(); }
void d_encode(hzrans64_encoder_output *r, E *e) { e->set_cross_encoder(cross); new(r) hzrans64_encoder_output(e->encode()); }
void d_decode(hzrans64_decoder_output *r, D *d, rainman::ptr<uint32_t> *raw, rainman::ptr<uint64_t> *sym) { d->override_symbol_ptr(*sym); d->set_cross_decoder(cross); new(r) hzrans64_decoder_output(d->decode(*raw)); }
void d_ehead(E *e, uint64_t a, uint16_t scale, uint64_t n) { e->set_header(a, scale, n); }
void d_dhead(D *d, uint64_t a, uint16_t scale, uint64_t n) { d->set_header(a, scale, n); }
void d_esize(E *e, uint64_t n) { e->set_size(n); }
}
''', flags=['-fno-access-control'], keep=re.compile(r'HZ_Stack<unsigned int>::|basic_string<.*>::(~)?basic_string|std::__throw'))}
NAMES = ['x', 'lower_bound', 'ls', 'bs', 'count', 'ssize', 'estate', 'estate_n', 'eindex', 'esize', 'esizeof', 'dstate', 'dstate_n', 'dsize', 'dsizeof', 'eo_data', 'eo_n', 'do_data', 'do_n', 'eo_sizeof', 'do_sizeof']
L31, L63, W = 1 << 31, 1 << 63, 1 << 32
Sel = z3.Select


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


def history(c):
    """symbol intervals LS(k), BS(k); the coder states X(N) .. X(0) they lead to, the words spilled on the way and how many"""
    c.o = locs(c)
    c.N = N = c.sym('N', 64)
    c.assume(N < 1 << 60)
    I = z3.IntSort()
    f = lambda n, *a: z3.Function(n, *([I] * (len(a) or 1) + [I])) if not a else z3.Function(n, *a)
    c.LS, c.BS, c.X, c.CNT, c.SYM = (z3.Function(n, I, I) for n in ('LS', 'BS', 'X', 'CNT', 'SYM'))
    c.WD = z3.Const('WD', z3.ArraySort(I, I))
    c.ENC = z3.Function('ENC', I, I, I, I)
    c.SP = z3.Function('SPILL', I, I, z3.BoolSort())
    N, X, CNT, LS, BS, SP, ENC = N, c.X, c.CNT, c.LS, c.BS, c.SP, c.ENC
    rng = lambda k: z3.And(0 <= k, k < N)
    c.assume(X(N) == L31, CNT(N) == 0)
    c.assume(c.fa(lambda k: z3.Implies(rng(k), z3.And(X(k) == ENC(X(k + 1), LS(k), BS(k)), CNT(k) == CNT(k + 1) + z3.If(SP(X(k + 1), LS(k)), 1, 0),
                                                        z3.Implies(SP(X(k + 1), LS(k)), Sel(c.WD, CNT(k + 1)) == X(k + 1) % W)))))
    # by induction over the history: C09 keeps the state in range; a count of steps
    c.assume(c.fa(lambda k: z3.Implies(z3.And(0 <= k, k <= N), z3.And(L31 <= X(k), X(k) < L63, 0 <= CNT(k), CNT(k) <= N - k, CNT(k) <= CNT(0)))))
    c.assume(c.fa(lambda k: z3.Implies(rng(k), z3.And(1 <= LS(k), LS(k) < W, 0 <= BS(k), BS(k) < W, 0 <= SYM_(c, k), SYM_(c, k) < 1 << 64))))
    c.assume(c.fa(lambda k: z3.And(0 <= Sel(c.WD, k), Sel(c.WD, k) < W)))


def SYM_(c, k):
    return c.SYM(k)


def fld(c, st, k):
    return c.peek(st, Ptr(c.s, c.o[k]), 64)


def setf(c, st, k, v):
    c.eng.poke(st, Ptr(c.s, c.o[k]), 64, v)


def is_state(c, eng, st, p):
    eng.require(st, z3.BoolVal(isinstance(p, Ptr) and p.obj is c.s and not p.c and not p.ix), 'frame', label='works on the codec state of this object')


def codec_state(c):
    o = c.o
    c.x0, c.count0 = c.sym('x0', 64), c.sym('count0', 64)
    c.s = c.cells('state', o['ssize'], {o['x']: (64, c.x0), o['lower_bound']: (64, L31), o['ls']: (64, c.sym('ls0', 64)), o['bs']: (64, c.sym('bs0', 64)), o['count']: (64, c.count0)})


def stack_contract(c):
    """HZ_Stack as a sequence (length, contents)"""
    I = z3.IntSort()
    g = c.st.ghost
    g['sd'] = z3.K(I, z3.IntVal(0))
    g['sn'] = z3.IntVal(0)
    g['live'] = z3.BoolVal(False)
    T = trust('HZ_Stack is a last-in first-out sequence (contract verified in C12)')

    def one(st, p):
        """every stack operation goes to the one stack this call made"""
        q = st.ghost.get('stk')
        if q is None or not isinstance(p, Ptr) or p.obj is not q.obj:
            raise Structure('operation on an unknown stack')

    @T
    def ctor(eng, st, k):
        if st.ghost.get('stk') is not None:
            raise Structure('more than one word stack')
        st.setg('stk', k.args[0])
        st.setg('sn', z3.IntVal(0))

    @T
    def push(eng, st, k):
        one(st, k.args[0])
        st.setg('sd', z3.Store(st.ghost['sd'], st.ghost['sn'], k.args[1]))
        st.setg('sn', st.ghost['sn'] + 1)

    @T
    def pop(eng, st, k):
        one(st, k.args[0])
        n = st.ghost['sn']
        st.setg('sn', z3.If(n > 0, n - 1, n))

    @T
    def top(eng, st, k):
        one(st, k.args[0])
        n = st.ghost['sn']
        eng.require(st, n > 0, 'precondition', label='top of a non-empty stack')
        return Sel(st.ghost['sd'], n - 1)

    @T
    def size(eng, st, k):
        one(st, k.args[0])
        return st.ghost['sn']

    @T
    def empty(eng, st, k):
        one(st, k.args[0])
        return st.ghost['sn'] == 0
    for nm, h in (('HZ_Stack\\(', ctor), ('push\\(', push), ('pop\\(', pop), ('top\\(', top), ('size\\(', size), ('empty\\(', empty)):
        c.handle(re.compile(r'HZ_Stack<unsigned int>::' + nm), h)


def steps(c):
    """the caller's cross codec and the coding steps (C09)"""
    @trust('the cross codec supplied by the caller sets the interval of the next symbol in the codec state')
    def cross(eng, st, k):
        is_state(c, eng, st, k.args[0])
        g = st.ghost['k']
        if c.enc:
            eng.require(st, z3.And(1 <= g, g <= c.N), 'precondition', label='one cross-encoder call per symbol, last symbol first')
            g = g - 1
            st.setg('k', g)
            i = g
        else:
            eng.require(st, z3.And(0 <= g, g < c.N), 'precondition', label='one cross-decoder call per symbol, first symbol first')
            eng.require(st, fld(c, st, 'x') == c.X(g), 'precondition', label='the cross decoder sees the state the encoder left for this symbol')
            i = g
            st.setg('k', g + 1)
            c.eng.poke(st, Ptr(c.symcell), 64, c.SYM(i))
        setf(c, st, 'ls', c.LS(i))
        setf(c, st, 'bs', c.BS(i))
    c.handle('hzv_cross', cross)

    @trust('hzrans64_encode_s: contract verified in C09')
    def enc(eng, st, k):
        is_state(c, eng, st, k.args[0])
        x, ls, bs = fld(c, st, 'x'), fld(c, st, 'ls'), fld(c, st, 'bs')
        g = st.ghost['k']
        eng.require(st, z3.And(L31 <= x, x < L63, ls == c.LS(g), bs == c.BS(g), g >= 0, g < c.N), 'precondition', label='encode step with the interval of the current symbol')
        if st.ghost.get('stk') is None or k.args[1].obj is not st.ghost['stk'].obj:
            raise Structure('encode step on an unknown stack')
        sp = c.SP(x, ls)
        n = st.ghost['sn']
        d = eng.freshc('sd', st.ghost['sd'].sort())
        st.fa.append(c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < n), Sel(d, j) == Sel(st0, j))) if (st0 := st.ghost['sd']) is not None else None)
        st.assume(z3.Implies(sp, Sel(d, n) == x % W))
        st.setg('sd', d)
        st.setg('sn', n + z3.If(sp, 1, 0))
        setf(c, st, 'count', fld(c, st, 'count') + z3.If(sp, 1, 0))
        y = c.ENC(x, ls, bs)
        st.assume(L31 <= y, y < L63)
        setf(c, st, 'x', y)
    c.handle(re.compile(r'^hzrans64_encode_s\('), enc)

    @trust('hzrans64_enc_flush: contract verified in C09')
    def flush(eng, st, k):
        is_state(c, eng, st, k.args[0])
        x, n = fld(c, st, 'x'), st.ghost['sn']
        st.setg('sd', z3.Store(z3.Store(st.ghost['sd'], n, x / W), n + 1, x % W))
        st.setg('sn', n + 2)
        setf(c, st, 'count', fld(c, st, 'count') + 2)
    c.handle(re.compile(r'^hzrans64_enc_flush\('), flush)

    def words(eng, st, p):
        q, n = eng.peekp(st, p), eng.peek(st, p.add(8), 64)
        if not isinstance(q, Ptr) or q.obj is not c.raw or q.c or q.ix:
            raise Structure('reads words from elsewhere')
        return c.arr(c.raw, st=st), n

    @trust('hzrans64_dec_load_state: contract verified in C09')
    def load(eng, st, k):
        is_state(c, eng, st, k.args[0])
        A, n = words(eng, st, k.args[1])
        eng.require(st, n >= 2, 'precondition', label='load with at least two words')
        setf(c, st, 'x', Sel(A, 1) * W + Sel(A, 0))
        setf(c, st, 'count', z3.IntVal(2))
    c.handle(re.compile(r'^hzrans64_dec_load_state\('), load)

    @trust('hzrans64_decode_s: contract verified in C09 (decoding undoes encoding when the spilled word is next)')
    def dec(eng, st, k):
        is_state(c, eng, st, k.args[0])
        A, n = words(eng, st, k.args[1])
        g = st.ghost['k'] - 1
        x, cnt = fld(c, st, 'x'), fld(c, st, 'count')
        eng.require(st, z3.And(0 <= g, g < c.N, fld(c, st, 'ls') == c.LS(g), fld(c, st, 'bs') == c.BS(g)), 'precondition', label='decode step with the interval of the current symbol')
        eng.require(st, x == c.X(g), 'precondition', label='decode step starts from the encoded state')
        sp = c.SP(c.X(g + 1), c.LS(g))
        eng.require(st, z3.Implies(sp, z3.And(cnt < n, Sel(A, cnt) == c.X(g + 1) % W)), 'precondition', label='the next word is the one spilled at this step')
        setf(c, st, 'x', c.X(g + 1))
        setf(c, st, 'count', cnt + z3.If(sp, 1, 0))
    c.handle(re.compile(r'^hzrans64_decode_s\('), dec)


@P.unit('encoding', 'd_encode', 'h', mode='int')
def encode(c):
    history(c)
    c.enc = True
    o, N = c.o, c.N
    codec_state(c)
    stack_contract(c)
    steps(c)
    c.st.ghost['k'] = N
    e = c.eng.newobj(c.st, 'encoder', [Cells(0, o['esizeof'], fill=0)])
    c.put(Ptr(e, o['estate']), 'p', Ptr(c.s))
    c.put(Ptr(e, o['estate_n']), 64, 1)
    c.put(Ptr(e, o['eindex']), 64, N)
    r = c.cells('result', o['eo_sizeof'])
    c.args = [Ptr(r), Ptr(e)]
    c.eng.opts['alloc_elem'] = 4

    def once(L):
        st = L.st
        sn, sd, k = st.ghost['sn'], st.ghost['sd'], st.ghost['k']
        idx = c.peek(st, Ptr(e, o['eindex']), 64)
        r = {'state': fld(c, st, 'x') == c.X(k), 'counted': fld(c, st, 'count') == sn, 'words': z3.And(sn == c.CNT(k), 0 <= k, k <= N),
             'to go': idx == k, 'stack contents': c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < sn), Sel(sd, j) == Sel(c.WD, j)))}
        # words flushed: the two halves of the state on top
        nt = c.CNT(0)
        full = lambda j: z3.If(j < nt, Sel(c.WD, j), z3.If(j == nt, c.X(0) / W, c.X(0) % W))
        r['after flush'] = c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < sn), Sel(sd, j) == full(j)))
        r['after flush, counted'] = z3.And(fld(c, st, 'count') == nt + 2, sn <= nt + 2)
        bl = c.blocks(st)
        if bl and st.mem[bl[-1].oid].regs[0].f.get(0, (0,))[0] == 4:
            A = c.arr(bl[-1], st=st)
            r['written'] = c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < nt + 2 - sn), Sel(A, j) == full(nt + 1 - j)))
        return r
    c.auto(lambda L, v: {'drained': L.st.ghost['sn'] == c.CNT(0) + 2 - v, 'at most all': z3.And(0 <= v, v <= c.CNT(0) + 2), 'to go': z3.And(L.st.ghost['k'] == v, 0 <= v, v <= N)}, hi=c.CNT(0) + 2 + N, once=once)
    c.eng.opts['auto_meas'] = lambda L: {'symbols left': L.st.ghost['k'], 'words left': L.st.ghost['sn']}
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        if t.done != 'ret':
            continue
        n = c.CNT(0) + 2
        c.ensure(t, 'word count', c.peek(t, Ptr(r, o['eo_n']), 64) == n)
        q = c.eng.peekp(t, Ptr(r, o['eo_data']))
        c.ensure(t, 'a block of that many words', c.peek(t, Ptr(r, o['eo_data'] + 8), 64) == n)
        A = c.arr(q.obj, st=t)
        c.ensure(t, 'final state first', z3.And(Sel(A, 0) == c.X(0) % W, Sel(A, 1) == c.X(0) / W))
        c.ensure(t, 'then the spilled words, last one first', c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < c.CNT(0)), Sel(A, 2 + j) == Sel(c.WD, c.CNT(0) - 1 - j))))
        c.ensure(t, 'symbols consumed', z3.And(t.ghost['k'] == 0, c.peek(t, Ptr(e, o['eindex']), 64) == 0))


@P.unit('decoding', 'd_decode', 'h', mode='int')
def decode(c):
    history(c)
    c.enc = False
    o, N = c.o, c.N
    codec_state(c)
    stack_contract(c)
    steps(c)
    c.st.ghost['k'] = z3.IntVal(0)
    nt = c.CNT(0)
    # the words the encoder produces for this history
    m = c.sym('m', 64)
    c.assume(m >= nt + 2, m < 1 << 61)
    c.raw = c.array('words', 4, m)
    A = c.arr(c.raw)
    c.assume(Sel(A, 0) == c.X(0) % W, Sel(A, 1) == c.X(0) / W)
    c.assume(c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < nt), Sel(A, 2 + nt - 1 - j) == Sel(c.WD, j))))
    c.symcell = c.cells('symbol', 8, {0: (64, c.sym('sym0', 64))})
    d = c.eng.newobj(c.st, 'decoder', [Cells(0, o['dsizeof'], fill=0)])
    c.put(Ptr(d, o['dstate']), 'p', Ptr(c.s))
    c.put(Ptr(d, o['dstate_n']), 64, 1)
    c.put(Ptr(d, o['dsize']), 64, N)
    raw = c.cells('raw', 16, {0: ('p', Ptr(c.raw)), 8: (64, m)})
    sym = c.cells('sym', 16, {0: ('p', Ptr(c.symcell)), 8: (64, 1)})
    r = c.cells('result', o['do_sizeof'])
    c.args = [Ptr(r), Ptr(d), Ptr(raw), Ptr(sym)]
    c.eng.opts['alloc_elem'] = 8

    def once(L):
        st, k = L.st, L.st.ghost['k']
        r = {'state': fld(c, st, 'x') == c.X(k), 'position': fld(c, st, 'count') == 2 + nt - c.CNT(k), 'range': z3.And(0 <= k, k <= N)}
        bl = c.blocks(st)
        if bl:
            B = c.arr(bl[-1], st=st)
            r['decoded'] = c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < k), Sel(B, j) == c.SYM(j)))
        return r
    c.auto(lambda L, v: {'step': z3.And(L.st.ghost['k'] == v, 0 <= v, v <= N)}, hi=N, once=once)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        if t.done != 'ret':
            continue
        c.ensure(t, 'symbol count', z3.And(c.peek(t, Ptr(r, o['do_n']), 64) == N, c.peek(t, Ptr(r, o['do_data'] + 8), 64) == N))
        q = c.eng.peekp(t, Ptr(r, o['do_data']))
        B = c.arr(q.obj, st=t)
        c.ensure(t, 'every symbol comes back', c.fa(lambda j: z3.Implies(z3.And(0 <= j, j < N), Sel(B, j) == c.SYM(j))))
        c.ensure(t, 'exactly the words produced are consumed', fld(c, t, 'count') == nt + 2)


def header(which, fn, fo):
    @P.unit('%s header' % which, fn, 'h', mode='int')
    def u(c):
        c.o = o = locs(c)
        a, s, n = c.sym('alphabet', 64), c.sym('scale', 16), c.sym('n', 64)
        c.args = []
        c.st.ghost['init'] = None
        seen = []

        @trust('hzrans64_codec_init: contract verified in C09')
        def init(eng, st, k):
            if st.ghost['init'] is not None:
                raise Structure('two initialisations')
            st.setg('init', z3.IntVal(1))
            eng.require(st, z3.And(k.args[1] == a, k.args[2] == z3.If(s > 31, 31, s)), 'precondition', label='alphabet as given, scale at most 31')
            seen.append(k.args[0])
        c.handle(re.compile(r'^hzrans64_codec_init\('), init)
        e = c.eng.newobj(c.st, which, [Cells(0, o[fo + 'sizeof'], fill=0)])
        c.args = [Ptr(e), a, s, n]
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            c.ensure(t, 'one initialisation', z3.BoolVal(t.ghost['init'] is not None))
            q = c.eng.peekp(t, Ptr(e, o[fo + 'state']))
            c.ensure(t, 'the initialised state is the one used', z3.BoolVal(bool(seen) and isinstance(q, Ptr) and q.obj is seen[-1].obj and t.mem[q.obj.oid].alive))
            c.ensure(t, 'stream length', c.peek(t, Ptr(e, o[fo + 'size']), 64) == n)
            if fo == 'e':
                c.ensure(t, 'nothing to encode yet', c.peek(t, Ptr(e, o['eindex']), 64) == 0)


header('encoder', 'd_ehead', 'e')
header('decoder', 'd_dhead', 'd')


@P.unit('number of symbols to encode', 'd_esize', 'h', mode='int')
def setsize(c):
    c.o = o = locs(c)
    n = c.sym('n', 64)
    e = c.eng.newobj(c.st, 'encoder', [Cells(0, o['esizeof'], fill=0)])
    c.args = [Ptr(e), n]
    yield
    for t in c.terminals:
        c.ensure(t, 'kept', c.peek(t, Ptr(e, o['eindex']), 64) == n)


P.native = dict(src='c11.cpp', repo=['src/hzip_core/kernel/hzrans/hzrans64.cpp', 'src/hzip_core/kernel/hzrans/hzrans64_codec.cpp'], secs=3, tsecs=60)
