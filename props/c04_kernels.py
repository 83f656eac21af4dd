from core import *
from c03_color import fwd, inv
from c05_paeth import predictor, differential
from lib import trust
import build, re
P = Property('C04', 'OpenCL kernels compute the same values as the CPU code')


def cl(*files):
    return dict(text='\n'.join(build.kernel_text('src/' + f) for f in files), lang='cl')


def module(*files):
    try:
        return cl(*files)
    except build.ExtractError:
        return dict(src='src/' + files[-1])


P.modules = {'p': dict(module('hzip_core/opencl/common/types.cl', 'hzip_core/models/paeth.cl'), select=True),
             'c': module('hzip_core/opencl/common/types.cl', 'hzip_core/opencl/common/extended_types.cl', 'hzip_core/preprocessor/rgb_ycocg.cl')}
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select


def work_item(c):
    """any work item of any launch: global id tid, segment length s, n cells"""
    c.tid, c.s, c.n = c.sym('tid', 64), c.sym('stride', 64), c.sym('n', 64)
    c.eng.opts['nl'] = True
    MUL = c.eng.uf('MUL', 2)
    c.lo = lo = MUL(c.tid, c.s)
    c.assume(MUL(c.s, c.tid) == lo, ULT(lo, 1 << 60), ULE(1, c.s), ULT(c.s, 1 << 58), ULT(c.n, 1 << 58), ULT(c.tid, 1 << 60))
    c.hi = z3.If(ULT(lo + c.s, c.n), lo + c.s, c.n)

    @trust('get_global_id(0) is the index of the work item')
    def gid(eng, st, k):
        return c.tid
    c.handle(re.compile(r'get_global_id'), gid)


def apart(n, K, J, v):
    """positions of different pixels in the three planes differ"""
    n2 = 2 * n
    return z3.And(v + n != K, v + n2 != K, v != K + n, v + n2 != K + n, v != K + n2, v + n != K + n2, v != J, v + n != J, v + n2 != J, z3.Implies(v != K, z3.And(v + n != K + n, v + n2 != K + n2)))


@P.lemma_unit('planes')
def planes(c):
    n, K, J, v = z3.BitVecs('n K J v', 64)
    c.lemma('pixels of different planes lie apart', apart(n, K, J, v), ULT(n, 1 << 58), ULT(K, n), ULE(3 * n, J), ULT(J, 1 << 60), ULT(v, n))
    tid, s, k = z3.Ints('tid s k')
    c.lemma('every cell belongs to exactly one segment', z3.And(z3.Implies(tid * s <= k, k / s >= tid), z3.Implies(k < tid * s + s, k / s <= tid)), s >= 1, tid >= 0, k >= 0,
            k == s * (k / s) + k % s, k % s >= 0, k % s < s, z3.Implies(k / s <= tid - 1, s * (k / s) <= s * tid - s), z3.Implies(k / s >= tid + 1, s * (k / s) >= s * tid + s))
    q = z3.Int('q')
    c.lemma('s*q <= s*tid - s for q <= tid - 1', z3.And(z3.Implies(q <= tid - 1, s * q <= s * tid - s), z3.Implies(q >= tid + 1, s * q >= s * tid + s)), s >= 1)
    c.lemma('a cell lies in the segment of its quotient', z3.And((k / s) * s <= k, k < (k / s) * s + s), s >= 1, k >= 0)


def colour(f):
    def body(c):
        work_item(c)
        n, lo, hi = c.n, c.lo, c.hi
        c.mask = c.sym('mask', 64)
        d = c.sym('depth', 64)
        c.assume(ULE(1, d), ULE(d, 16), c.mask == (z3.BitVecVal(1, 64) << d) - 1)
        m = z3.Extract(15, 0, c.mask)
        c.cap = c.sym('capacity', 64)
        c.assume(ULE(3 * n, c.cap), ULT(c.cap, 1 << 60))
        a = c.array('arr', 2, c.cap)
        A0 = c.arr(a)

        # any pixel K, and any index J past the three planes
        K, J = c.sym('K', 64), c.sym('J', 64)
        c.assume(ULT(K, n), ULE(3 * n, J), ULT(J, c.cap))
        pos = [K, K + n, K + 2 * n]
        c.eng.opts['split'] = [K]
        V = f(m, *[Sel(A0, q) for q in pos])
        is_done = lambda B: z3.And(*[Sel(B, q) == v for q, v in zip(pos, V)])
        is_kept = lambda B: z3.And(*[Sel(B, q) == Sel(A0, q) for q in pos])
        inside = z3.And(ULE(lo, K), ULT(K, hi))

        c.assume(c.fa(lambda v: z3.Implies(ULT(v, n), apart(n, K, J, v))))      # lemma below

        def T(L, v):
            B = L.arr(a)
            now = z3.And(ULE(lo, K), ULT(K, v))
            d = {'in segment': z3.And(ULE(lo, v), ULE(v, hi)), 'below the end': ULT(v, hi), 'tail kept': Sel(B, J) == Sel(A0, J)}
            for j, (q, w) in enumerate(zip(pos, V)):
                d['converted so far, plane %d' % j] = z3.Implies(now, Sel(B, q) == w)
                d['rest kept, plane %d' % j] = z3.Implies(z3.Not(now), Sel(B, q) == Sel(A0, q))
            return d
        c.auto(T, hi=hi)
        c.args = [Ptr(a), n, c.s, c.mask]
        yield
        for t in c.terminals:
            c.ensure(t, 'ends normally', z3.BoolVal(t.done == 'ret'))
            B = c.arr(a, st=t)
            for j, (q, w) in enumerate(zip(pos, V)):
                c.ensure(t, 'the pixels of the segment are converted as on the CPU, plane %d' % j, z3.Implies(inside, Sel(B, q) == w))
            for j, q in enumerate(pos):
                c.ensure(t, 'no other pixel is touched, plane %d' % j, z3.Implies(z3.Not(inside), Sel(B, q) == Sel(A0, q)))
            c.ensure(t, 'nothing past the planes is touched', Sel(B, J) == Sel(A0, J))
    return body


P.unit('colour kernel, forward', 'u16x_rgb_to_ycocg', 'c')(colour(fwd))
P.unit('colour kernel, back', 'u16x_ycocg_to_rgb', 'c')(colour(inv))


@P.unit('Paeth kernel', 'paeth_differential16', 'p', mode='int')
def paeth(c):
    tid, s, n = c.sym('tid', 64), c.sym('stride', 64), c.sym('n', 64)
    w, h, d = c.sym('width', 64), c.sym('height', 64), c.sym('depth', 8)
    c.eng.opts['nl'] = True
    MUL, DIV, MOD = c.eng.uf('MUL', 2), c.eng.uf('DIV', 2), c.eng.uf('MOD', 2)
    lo = MUL(tid, s)
    c.assume(lo == MUL(s, tid), lo < 1 << 60, s >= 1, s < 1 << 58, n < 1 << 58, tid < 1 << 60, w >= 1, h >= 1, d <= 16, lo >= tid, z3.Implies(tid >= 1, lo >= s))
    hi = z3.If(lo + s < n, lo + s, n)

    @trust('get_global_id(0) is the index of the work item')
    def gid(eng, st, k):
        return tid
    c.handle(re.compile(r'get_global_id'), gid)
    small = lambda x: [z3.Implies(x < w, z3.And(DIV(x, w) == 0, MOD(x, w) == x)), z3.Implies(x >= w, z3.And(DIV(x, w) >= 1, MOD(x, w) <= x - w))]
    c.eng.opts['div_facts'] = lambda x, y, q, r: small(x) if z3.eq(z3.simplify(y), w) else []
    cin, cout = c.sym('input cells', 64), c.sym('output cells', 64)
    c.assume(cin >= n, cout >= n, cin < 1 << 58, cout < 1 << 58)
    a, b = c.array('input', 2, cin), c.array('output', 2, cout)
    A0, B0 = c.arr(a), c.arr(b)
    K = c.sym('K', 64)          # any cell
    c.assume(K < cout)
    X, Y = MOD(K, w), DIV(K, w)
    c.assume(X >= 0, X < w, X <= K, Y >= 0, *small(K))
    p = c.eng.pow2(c.st, d)
    c.assume(p <= 65536)
    want = differential(p, Sel(A0, K), predictor(X, Y, Sel(A0, K - 1), Sel(A0, K - w), Sel(A0, K - w - 1)))
    inside = z3.And(lo <= K, K < hi)

    def T(L, v):
        B = L.arr(b)
        now = z3.And(lo <= K, K < v, K < n)
        return {'in segment': z3.And(lo <= v, z3.Or(v <= hi, v == lo)), 'below the end': v < hi, 'filtered so far': z3.Implies(now, Sel(B, K) == want), 'rest kept': z3.Implies(z3.Not(now), Sel(B, K) == Sel(B0, K))}
    c.auto(T, hi=z3.If(lo < n, hi, lo))
    c.args = [Ptr(a), Ptr(b), w, h, d, n, s]
    yield
    for t in c.terminals:
        c.ensure(t, 'ends normally', z3.BoolVal(t.done == 'ret'))
        B = c.arr(b, st=t)
        c.ensure(t, 'the cells of the segment are filtered as on the CPU', z3.Implies(inside, Sel(B, K) == want))
        c.ensure(t, 'no other cell is touched', z3.Implies(z3.Not(inside), Sel(B, K) == Sel(B0, K)))
        c.ensure(t, 'input kept', c.fa(lambda k: Sel(c.arr(a, st=t), k) == Sel(A0, k)))


@P.lemma_unit('cells')
def cells(c):
    x, w, X, Y = z3.Ints('x w X Y')
    q, r = z3.Ints('q r')
    div = [w >= 1, x >= 0, q >= 0, r >= 0, r < w, x == q * w + r]
    c.lemma('cells of the first row', z3.Implies(x < w, z3.And(q == 0, r == x)), *div, z3.Implies(q >= 1, q * w >= w))
    c.lemma('cells past the first row', z3.Implies(x >= w, z3.And(q >= 1, r <= x - w)), *div, z3.Implies(q <= 0, q * w <= 0), z3.Implies(q >= 1, q * w >= w))
    c.lemma('the remainder is at most the number', r <= x, *div, q * w >= 0)
    c.lemma('a product is at least its factors', z3.And(x * w >= x, z3.Implies(x >= 1, x * w >= w)), w >= 1, x >= 0, x * (w - 1) >= 0, z3.Implies(x >= 1, (x - 1) * w >= 0))
    c.lemma('products', z3.And(z3.Implies(q >= 1, q * w >= w), z3.Implies(q <= 0, q * w <= 0)), w >= 1)
    c.lemma('sample (Y, X) of the CPU code is the cell with quotient Y and remainder X', z3.And(q == Y, r == X), *div, X >= 0, X < w, Y >= 0, x == Y * w + X,
            z3.Implies(q < Y, (Y - q - 1) * w >= 0), z3.Implies(q > Y, (q - Y - 1) * w >= 0))


P.native = dict(src='c04.cpp', repo=['src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/models/paeth.cpp', 'src/hzip_core/runtime/config.cpp', 'src/hzip_core/runtime/cache_provider.cpp', 'src/hzip_core/opencl/cl_helper.cpp'], flags=['-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS'], gen={'kernels_gen.inc': ['src/hzip_core/opencl/common/types.cl', 'src/hzip_core/opencl/common/extended_types.cl', 'src/hzip_core/preprocessor/rgb_ycocg.cl', 'src/hzip_core/models/paeth.cl']}, secs=3, tsecs=40)
