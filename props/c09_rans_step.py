from core import *
import re
P = Property('C09', 'rANS encode/decode steps are inverse')
P.modules = {'r': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/kernel/hzrans/hzrans64.cpp>
extern "C" {
void d_loc(uint64_t *o) { using S = hzrans64_t; o[0] = offsetof(S, x); o[1] = offsetof(S, scale); o[2] = offsetof(S, lower_bound); o[3] = offsetof(S, up_prefix); o[4] = offsetof(S, mask);
  o[5] = offsetof(S, ls); o[6] = offsetof(S, bs); o[7] = offsetof(S, count); o[8] = sizeof(S); o[9] = offsetof(S, size); o[10] = offsetof(S, ftable); }
void d_init(hzrans64_t *s, uint64_t size, uint64_t scale) { hzrans64_codec_init(s, size, scale); }
void d_encode(hzrans64_t *s, HZ_Stack<uint32_t> *d) { hzrans64_encode_s(s, d); }
void d_decode(hzrans64_t *s, rainman::ptr<uint32_t> *d) { hzrans64_decode_s(s, *d); }
void d_flush(hzrans64_t *s, HZ_Stack<uint32_t> *d) { hzrans64_enc_flush(s, d); }
void d_load(hzrans64_t *s, rainman::ptr<uint32_t> *d) { hzrans64_dec_load_state(s, *d); }
}
''', flags=['-fno-access-control'])}
NAMES = ['x', 'scale', 'lower_bound', 'up_prefix', 'mask', 'ls', 'bs', 'count', 'sizeof', 'size', 'ftable']
L31, L63, W = 1 << 31, 1 << 63, 1 << 32


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    n = len(NAMES)
    o = e2.newobj(st, 'o', [Cells(0, 8 * n)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


def scale(c):
    """any scale from 0 to 31: p = 2^scale, P = 2^(31-scale)"""
    c.scale = s = c.sym('scale', 64)
    c.p = p = c.eng.pow2(c.st, s)
    c.P = P_ = c.sym('P', 64)
    c.assume(s <= 31, p * P_ == L31, p >= 1, P_ >= 1, p <= L31, P_ <= L31)
    c.eng.opts['masks'] = [(p - 1, p)]


def divides(c, a, b, q, r):
    """lemma (proved below): a = b*q + r with 0 <= r < b determines quotient and remainder"""
    c.assume(z3.Implies(z3.And(b > 0, a == b * q + r, 0 <= r, r < b), z3.And(a / b == q, a % b == r)))


def bounds(c, a, b, k):
    """lemma (proved below): a >= b*k gives a/b >= k, a < b*k gives a/b < k"""
    c.assume(z3.Implies(z3.And(b > 0, a >= 0, k >= 0), z3.And(z3.Implies(a >= b * k, a / b >= k), z3.Implies(a < b * k, a / b < k), a == b * (a / b) + a % b, a % b >= 0, a % b < b, a / b >= 0)))


def state(c):
    """a codec state as codec_init leaves it, at any point of a run"""
    scale(c)
    c.o = o = locs(c)
    c.x, c.ls, c.bs, c.count = (c.sym(k, 64) for k in ('x', 'ls', 'bs', 'count'))
    c.assume(c.count < 1 << 61)
    c.assume(1 <= c.ls, c.bs + c.ls <= c.p)
    c.assume(c.ls * c.P <= L31)            # lemma below
    c.assume(c.ls * (c.P * W) == c.ls * c.P * W)
    c.s = c.cells('state', o['sizeof'], {o['x']: (64, c.x), o['scale']: (64, c.scale), o['lower_bound']: (64, L31), o['up_prefix']: (64, c.P * W),
                                         o['mask']: (64, c.p - 1), o['ls']: (64, c.ls), o['bs']: (64, c.bs), o['count']: (64, c.count)})
    for k in ('scale', 'lower_bound', 'up_prefix', 'mask', 'ls', 'bs'):
        c.__dict__['keep_' + k] = c.peek(c.st, Ptr(c.s, o[k]), 64)


def frame(c, t):
    for k in ('scale', 'lower_bound', 'up_prefix', 'mask', 'ls', 'bs'):
        c.ensure(t, 'field %s kept' % k, c.peek(t, Ptr(c.s, c.o[k]), 64) == c.__dict__['keep_' + k])


def pushes(c):
    c.st.ghost['pushed'] = ()

    def h(eng, st, k):
        st.setg('pushed', st.ghost['pushed'] + (k.args[1],))
    h.trust = 'HZ_Stack::push appends its argument (contract verified in C12)'
    c.handle(re.compile(r'^HZ_Stack<unsigned int>::push\('), h)


@P.unit('encode step', 'd_encode', 'r', mode='int')
def encode(c):
    state(c)
    x, ls, bs, p, P_ = c.x, c.ls, c.bs, c.p, c.P
    c.assume(L31 <= x, x < L63)
    y0 = x / W
    # quotient bounds: the division happens on x or on x / 2^32
    for y in (x, y0):
        bounds(c, y, ls, P_)
        bounds(c, y, ls, P_ * W)
        c.assume(z3.Implies(y / ls < P_ * W, (y / ls) * p <= L63 - p), z3.Implies(y / ls >= P_, (y / ls) * p >= L31))      # lemma below
    c.assume(z3.Implies(x >= ls * P_ * W, y0 >= ls * P_))       # lemma below
    pushes(c)
    c.args = [Ptr(c.s), Ptr(c.cells('stack', 64))]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        q = t.ghost['pushed']
        X = c.peek(t, Ptr(c.s, c.o['x']), 64)
        spill = x >= ls * P_ * W
        c.ensure(t, 'spills one word exactly when the state would overflow', z3.And(spill if q else z3.Not(spill), z3.BoolVal(len(q) < 2)))
        y = y0 if q else x
        c.ensure(t, 'state is quotient * 2^scale + start + remainder', X == (y / ls) * p + bs + y % ls)
        c.ensure(t, 'state stays in [2^31, 2^63)', z3.And(L31 <= X, X < L63))
        if q:
            c.ensure(t, 'the spilled word is the low half', q[0] == x % W)
        c.ensure(t, 'word count follows the stack', c.peek(t, Ptr(c.s, c.o['count']), 64) == c.count + len(q))
        frame(c, t)


@P.unit('decode step', 'd_decode', 'r', mode='int')
def decode(c):
    state(c)
    # the state is what an encode step produces from y = ls*q + r
    q, r = c.sym('q', 64), c.sym('r', 64)
    y = c.ls * q + r
    c.assume(r < c.ls, c.x == q * c.p + c.bs + r, L31 <= c.x, c.x < L63)
    divides(c, c.x, c.p, q, c.bs + r)
    c.assume(y <= c.x)          # lemma below
    n = c.sym('n', 64)
    c.assume(n < 1 << 61)
    d = c.array('words', 4, n)
    A = c.arr(d)
    # words remain whenever the predecessor had spilled
    c.assume(z3.Implies(y < L31, c.count < n))
    pp = c.cells('ptr', 16, {0: ('p', Ptr(d)), 8: (64, n)})
    c.args = [Ptr(c.s), Ptr(pp)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        X = c.peek(t, Ptr(c.s, c.o['x']), 64)
        c.ensure(t, 'undoes the division step and takes back a spilled word', X == z3.If(y < L31, y * W + z3.Select(A, c.count), y))
        c.ensure(t, 'consumes a word exactly when one was spilled', c.peek(t, Ptr(c.s, c.o['count']), 64) == z3.If(y < L31, c.count + 1, c.count))
        frame(c, t)


@P.unit('initial state', 'd_init', 'r')
def init(c):
    o = locs(c)
    size, s = c.sym('size', 64), c.sym('scale', 64)
    c.assume(z3.ULT(size, 1 << 60), z3.ULE(s, 31))
    st = c.cells('state', o['sizeof'], {o['lower_bound']: (64, L31)})
    c.args = [Ptr(st), size, s]
    yield
    V = lambda v: z3.BitVecVal(v, 64)
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        for k, v in (('x', L31), ('scale', s), ('lower_bound', L31), ('up_prefix', V(1) << (V(31) - s) << 32), ('mask', (V(1) << s) - 1), ('count', 0)):
            c.ensure(t, 'field %s' % k, c.peek(t, Ptr(st, o[k]), 64) == v)
        c.ensure(t, 'alphabet size', c.peek(t, Ptr(st, o['size']), 64) == size)
        p = c.eng.peekp(t, Ptr(st, o['ftable']))
        os = t.mem[p.obj.oid] if isinstance(p, Ptr) and p.obj is not None else None
        c.ensure(t, 'frequency table of that size', z3.And(os.lazy[0] == size * 8, z3.BoolVal(os.alive and p.c == 0)) if os and os.lazy else z3.BoolVal(False))


@P.unit('flush', 'd_flush', 'r')
def flush(c):
    c.o = o = locs(c)
    c.x, c.count = c.sym('x', 64), c.sym('count', 64)
    s = c.cells('state', o['sizeof'], {o['x']: (64, c.x), o['count']: (64, c.count)})
    pushes(c)
    c.args = [Ptr(s), Ptr(c.cells('stack', 64))]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        p = t.ghost['pushed']
        c.ensure(t, 'two words', z3.BoolVal(len(p) == 2))
        if len(p) == 2:
            c.ensure(t, 'high half first, low half on top', z3.And(p[0] == z3.Extract(63, 32, c.x), p[1] == z3.Extract(31, 0, c.x)))
        c.ensure(t, 'counted', c.peek(t, Ptr(s, o['count']), 64) == c.count + 2)
        c.ensure(t, 'state kept', c.peek(t, Ptr(s, o['x']), 64) == c.x)


@P.unit('load', 'd_load', 'r')
def load(c):
    c.o = o = locs(c)
    n = c.sym('n', 64)
    c.assume(z3.ULE(2, n), z3.ULT(n, 1 << 60))
    d = c.array('words', 4, n)
    A = c.arr(d)
    s = c.cells('state', o['sizeof'])
    p = c.cells('ptr', 16, {0: ('p', Ptr(d)), 8: (64, n)})
    c.args = [Ptr(s), Ptr(p)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'state is word 1 : word 0', c.peek(t, Ptr(s, o['x']), 64) == z3.Concat(z3.Select(A, z3.BitVecVal(1, 64)), z3.Select(A, z3.BitVecVal(0, 64))))
        c.ensure(t, 'two words consumed', c.peek(t, Ptr(s, o['count']), 64) == 2)


@P.lemma_unit('decode undoes encode')
def inverse(c):
    """the two step contracts compose: decoding the encoded state with the spilled word on top gives the old state back"""
    x, ls, bs, S, y, w, q, r, d, P_ = z3.Ints('x ls bs S y w q r d P')
    base = [L31 <= x, x < L63, 1 <= ls, bs >= 0, bs + ls <= S, S >= 1, S * P_ == L31, P_ >= 1]
    spill = x >= ls * P_ * W
    enc = [y == z3.If(spill, x / W, x), w == x % W, q == y / ls, r == y % ls]
    dec = d == z3.If(ls * q + r < L31, (ls * q + r) * W + w, ls * q + r)
    div = [y == ls * q + r, 0 <= r, r < ls, q >= 0]
    c.lemma('the decoder sees the number before the division', z3.And(ls * q + r == y, 0 <= r, r < ls, q >= 0), *base, *enc[2:], y >= 0)
    c.lemma('the decoder refills exactly when the encoder spilled', (y < L31) == spill, *base, *enc[:2], ls * P_ <= L31)
    c.lemma('ls * 2^(31-scale) <= 2^31', ls * P_ <= L31, *base)
    a, b, k, p, t = z3.Ints('a b k p t')
    c.lemma('quotient is unique', z3.And(a / b == k, a % b == t), b > 0, a == b * k + t, 0 <= t, t < b,
            # both decompositions of a differ by less than b
            z3.Or(a / b - k == 0, a / b - k >= 1, a / b - k <= -1), b * (a / b - k) == t - a % b, z3.Implies(a / b - k >= 1, b * (a / b - k) >= b), z3.Implies(a / b - k <= -1, b * (a / b - k) <= -b))
    e = z3.Int('e')
    c.lemma('b*e >= b for e >= 1', z3.And(z3.Implies(e >= 1, b * e >= b), z3.Implies(e <= -1, b * e <= -b)), b > 0)
    c.lemma('difference of decompositions', b * (q - k) == t - r, a == b * k + t, a == b * q + r)
    c.lemma('quotient lower bound', z3.Implies(a >= b * k, q >= k), b > 0, a >= 0, k >= 0, a == b * q + r, r >= 0, r < b, z3.Implies(k - q >= 1, b * (k - q) >= b))
    c.lemma('quotient upper bound', z3.Implies(a < b * k, q < k), b > 0, a >= 0, k >= 0, a == b * q + r, r >= 0, r < b, z3.Implies(q - k >= 0, b * (q - k) >= 0))
    c.lemma('quotient times scale, above', z3.Implies(q < P_ * W, q * S <= L63 - S), S * P_ == L31, S >= 1, P_ >= 1, q >= 0, z3.Implies(q <= P_ * W - 1, q * S <= (P_ * W - 1) * S))
    c.lemma('quotient times scale, below', z3.Implies(q >= P_, q * S >= L31), S * P_ == L31, S >= 1, P_ >= 1, z3.Implies(q >= P_, q * S >= P_ * S))
    c.lemma('spilled state is large enough', z3.Implies(x >= ls * P_ * W, x / W >= ls * P_), x >= 0, ls >= 1, P_ >= 1)
    c.lemma('predecessor is not larger than the quotient form', ls * q + r <= q * S + bs + r, ls + bs <= S, bs >= 0, q >= 0, z3.Implies(ls <= S, q * ls <= q * S))
    c.lemma('products are monotonic', z3.Implies(ls <= S, q * ls <= q * S), q >= 0)
    c.lemma('state restored', d == x, *base, *enc[:2], *div, dec, (y < L31) == spill)


P.native = dict(src='c09.cpp', repo=['src/hzip_core/kernel/hzrans/hzrans64.cpp'], secs=2, tsecs=40)
