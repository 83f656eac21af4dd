"""Value domains.  'bv': exact bit-vectors.  'int': mathematical integers that
always hold the unsigned canonical value of the machine word; every wrap is either
proved impossible on the path or written out explicitly, so machine arithmetic is
modelled exactly in both."""
import z3


class Unsupported(Exception):
    pass


def is_false(e):
    return z3.is_false(e)


def is_true(e):
    return z3.is_true(e)


class BVDom:
    name = 'bv'

    def __init__(self):
        self.ix = z3.BitVecSort(64)

    def sort(self, w):
        return z3.BoolSort() if w == 1 else z3.BitVecSort(w)

    def const(self, v, w):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return z3.BitVecVal(v, w)

    def rng(self, x, w):
        return []

    def cval(self, x):
        if z3.is_bv_value(x):
            return x.as_long()
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
        return None

    def tobool(self, x):
        return x if z3.is_bool(x) else x == 1

    def bin(self, eng, st, op, x, y, w, fl, site):
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if op == 'and':
                return z3.And(x, y)
            if op == 'or':
                return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if eng.check_nsw and 'nsw' in fl and op in ('add', 'sub', 'mul'):
            f = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                 'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                 'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]
            eng.oblig(st, f(), 'no-signed-overflow', site)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            if w == 64 and eng.opts.get('nl') and self.cval(x) is None and self.cval(y) is None:
                # products of two unknowns stay symbolic; the unit supplies proved facts about them
                r = eng.uf('MUL', 2)(x, y)
                st.pc += [r == eng.uf('MUL', 2)(y, x)]
                return r
            return x * y
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            eng.oblig(st, y != 0, 'no-division-by-zero', site)
            if op in ('sdiv', 'srem') and self.cval(y) is None and eng.check_nsw:
                eng.oblig(st, z3.Or(y != -1, x != (1 << (w - 1))), 'no-signed-overflow', site)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}[op](x, y)
        if op in ('shl', 'lshr', 'ashr'):
            if self.cval(y) is None or self.cval(y) >= w:
                eng.oblig(st, z3.ULT(y, w), 'shift-in-range', site)
            return {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        raise Unsupported(op)

    def icmp(self, eng, st, p, x, y, w):
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if p == 'eq':
                return x == y
            if p == 'ne':
                return x != y
            x, y = self.zext(x, 1, 8), self.zext(y, 1, 8)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y}[p]()

    def zext(self, x, w, w2, eng=None, st=None):
        if w == 1:
            return z3.If(x, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        return z3.ZeroExt(w2 - w, x)

    def sext(self, x, w, w2, eng=None, st=None):
        if w == 1:
            return z3.If(x, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
        return z3.SignExt(w2 - w, x)

    def trunc(self, x, w, w2, eng=None, st=None):
        if w2 == 1:
            return z3.Extract(0, 0, x) == 1
        return z3.Extract(w2 - 1, 0, x)

    def concat(self, lo, wlo, hi, whi):
        return z3.Concat(hi, lo)

    def extract(self, x, w, lo, n):
        return z3.Extract(lo + n - 1, lo, x)

    def ixsigned(self, eng, st, x, w):
        """as 64-bit index term"""
        if w < 64:
            return z3.SignExt(64 - w, x)
        if w > 64:
            return z3.Extract(63, 0, x)
        return x

    def ixc(self, v):
        return z3.BitVecVal(v, 64)

    def ult(self, a, b):
        return z3.ULT(a, b)

    def ule(self, a, b):
        return z3.ULE(a, b)

    def inb(self, i, n):
        return z3.ULT(i, n)

    def umul_ov(self, x, y, w):
        return z3.Not(z3.BVMulNoOverflow(x, y, False))


class IntDom:
    name = 'int'

    def __init__(self):
        self.ix = z3.IntSort()
        self.sg = {}       # id(canonical ast) -> (canonical, signed term, w)

    def sort(self, w):
        return z3.BoolSort() if w == 1 else z3.IntSort()

    def const(self, v, w):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return z3.IntVal(v % (1 << w))

    def rng(self, x, w):
        if w == 1:
            return []
        return [x >= 0, x < (1 << w)]

    def cval(self, x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
        return None

    def tobool(self, x):
        return x if z3.is_bool(x) else x == 1

    def signed(self, eng, st, x, w):
        c = self.cval(x)
        M = 1 << w
        if c is not None:
            return z3.IntVal(c if c < M // 2 else c - M)
        e = self.sg.get((x.get_id(), w))
        if e is not None:
            return e[1]
        if eng.prove(st, x < M // 2):
            return x
        if eng.prove(st, x >= M // 2):
            return x - M
        return z3.If(x >= M // 2, x - M, x)

    def canon(self, eng, st, r, w):
        """r in signed range -> canonical"""
        r = z3.simplify(r)
        M = 1 << w
        c = self.cval(r)
        if c is not None:
            return z3.IntVal(c % M)
        if eng.prove(st, r >= 0):
            u = r
        elif eng.prove(st, r < 0):
            u = z3.simplify(r + M)
        else:
            u = z3.If(r < 0, r + M, r)
        self.sg[(u.get_id(), w)] = (u, r)
        return u

    def wrap(self, eng, st, r, w):
        r = z3.simplify(r)
        M = 1 << w
        c = self.cval(r)
        if c is not None:
            return z3.IntVal(c % M)
        if eng.prove(st, z3.And(r >= 0, r < M)):
            return r
        q = eng.freshc('wrapq', z3.IntSort())
        u = eng.freshc('wrap', z3.IntSort())
        st.pc += [u == r - q * M, u >= 0, u < M]
        return u

    def bin(self, eng, st, op, x, y, w, fl, site):
        M = 1 << w
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if op == 'and':
                return z3.And(x, y)
            if op == 'or':
                return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        cx, cy = self.cval(x), self.cval(y)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl and eng.check_nsw:
                a, b = self.signed(eng, st, x, w), self.signed(eng, st, y, w)
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                eng.oblig(st, z3.And(r >= -(M // 2), r < M // 2), 'no-signed-overflow', site)
                st.pc.append(z3.And(r >= -(M // 2), r < M // 2))
                return self.canon(eng, st, r, w)
            if op == 'add':
                if cy is not None and cy >= M // 2:
                    r = x - (M - cy)
                elif cx is not None and cx >= M // 2:
                    r = y - (M - cx)
                else:
                    r = x + y
                r = z3.simplify(r)
                if self.cval(r) is not None:
                    return z3.IntVal(self.cval(r) % M)
                if eng.prove(st, z3.And(r >= 0, r < M)):
                    return r
                return z3.If(r >= M, r - M, z3.If(r < 0, r + M, r))
            if op == 'sub':
                r = z3.simplify(x - y)
                if self.cval(r) is not None:
                    return z3.IntVal(self.cval(r) % M)
                if eng.prove(st, r >= 0):
                    return r
                return z3.If(r < 0, r + M, r)
            if cx is None and cy is None and eng.opts.get('nl'):
                # products of two unknowns stay symbolic; the unit supplies proved facts about them
                r, r2 = eng.uf('MUL', 2)(x, y), eng.uf('MUL', 2)(y, x)
                st.pc += [r == r2, r >= 0]
                mf = eng.opts.get('mul_facts')
                if mf:
                    st.pc += mf(x, y, r)
                return self.wrap(eng, st, r, w)
            return self.wrap(eng, st, x * y, w)
        if op in ('udiv', 'urem'):
            eng.oblig(st, y != 0, 'no-division-by-zero', site)
            if cy is None and eng.opts.get('nl'):
                q, r = eng.uf('DIV', 2)(x, y), eng.uf('MOD', 2)(x, y)
                st.pc += [q >= 0, q <= x, r >= 0, r < y, r <= x]
                df = eng.opts.get('div_facts')
                if df:
                    st.pc += df(x, y, q, r)
                return q if op == 'udiv' else r
            return x / y if op == 'udiv' else x % y
        if op in ('sdiv', 'srem'):
            eng.oblig(st, y != 0, 'no-division-by-zero', site)
            a, b = self.signed(eng, st, x, w), self.signed(eng, st, y, w)
            if eng.prove(st, z3.And(a >= 0, b > 0)):
                return a / b if op == 'sdiv' else a % b
            absa = z3.If(a < 0, -a, a)
            absb = z3.If(b < 0, -b, b)
            q = absa / absb
            q = z3.If((a < 0) != (b < 0), -q, q)
            return self.canon(eng, st, q if op == 'sdiv' else a - b * q, w)
        if op in ('shl', 'lshr', 'ashr'):
            if cy is None:
                eng.oblig(st, y < w, 'shift-in-range', site)
                p2 = eng.pow2(st, y)
                if op == 'shl':
                    return self.wrap(eng, st, x * p2, w)
                if op == 'lshr':
                    return x / p2
                raise Unsupported('ashr sym')
            if cy >= w:
                eng.oblig(st, z3.BoolVal(False), 'shift-in-range', site)
                return x
            if op == 'shl':
                r = self.wrap(eng, st, x * (1 << cy), w)
                eng.mult[r.get_id()] = (r, cy)
                return r
            if op == 'lshr':
                return x / (1 << cy)
            return self.canon(eng, st, self.signed(eng, st, x, w) / (1 << cy), w)
        if op == 'and':
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                if cx is not None:
                    return z3.IntVal(cx & cy)
                # contiguous pieces of the mask
                r = z3.IntVal(0)
                b = 0
                m = cy
                while m >> b:
                    while not (m >> b) & 1:
                        b += 1
                    e = b
                    while (m >> e) & 1:
                        e += 1
                    piece = x if b == 0 else x / (1 << b)
                    if e < w:
                        if not (b == 0 and eng.prove(st, x < (1 << e))):
                            piece = piece % (1 << (e - b))
                    r = r + piece * (1 << b)
                    b = e
                return z3.simplify(r)
            for m, p2 in eng.opts.get('masks', ()):          # m is known to be a power of two less one
                for a, b in ((x, y), (y, x)):
                    if eng.prove(st, b == p2 - 1):
                        return a % p2
            r = eng.uf('bvand%d' % w, 2)(x, y)
            st.pc += [r >= 0, r <= x, r <= y]
            return r
        if op == 'or':
            if cx is not None and cy is not None:
                return z3.IntVal(cx | cy)
            if cx == 0:
                return y
            if cy == 0:
                return x
            if 'disjoint' in fl:
                return x + y
            for a, b in ((x, y), (y, x)):
                m = eng.mult.get(a.get_id())
                k = m[1] if m else None
                if k is None and self.cval(a) is not None:
                    k = (self.cval(a) & -self.cval(a)).bit_length() - 1
                if k and eng.prove(st, b < (1 << k)):
                    return a + b
            r = eng.uf('bvor%d' % w, 2)(x, y)
            st.pc += [r >= x, r >= y, r <= x + y, r < M]
            return r
        if op == 'xor':
            if cx is not None and cy is not None:
                return z3.IntVal(cx ^ cy)
            if cy == M - 1:
                return M - 1 - x
            if cx == M - 1:
                return M - 1 - y
            r = eng.uf('bvxor%d' % w, 2)(x, y)
            st.pc += [r >= 0, r < M]
            return r
        raise Unsupported(op)

    def icmp(self, eng, st, p, x, y, w):
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if p == 'eq':
                return x == y
            if p == 'ne':
                return x != y
            x, y = self.zext(x, 1, 8), self.zext(y, 1, 8)
        if p == 'eq':
            return x == y
        if p == 'ne':
            return x != y
        if p[0] == 's':
            x, y = self.signed(eng, st, x, w), self.signed(eng, st, y, w)
        return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p[1:]]()

    def zext(self, x, w, w2, eng=None, st=None):
        if w == 1:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x

    def sext(self, x, w, w2, eng=None, st=None):
        if w == 1:
            return z3.If(x, z3.IntVal((1 << w2) - 1), z3.IntVal(0))
        return self.canon(eng, st, self.signed(eng, st, x, w), w2)

    def trunc(self, x, w, w2, eng=None, st=None):
        if w2 == 1:
            return x % 2 == 1
        if self.cval(x) is not None:
            return z3.IntVal(self.cval(x) % (1 << w2))
        if eng.prove(st, x < (1 << w2)):
            return x
        s = self.sg.get((x.get_id(), w))
        if s is not None and eng.prove(st, z3.And(s[1] >= -(1 << (w2 - 1)), s[1] < (1 << (w2 - 1)))):
            return self.canon(eng, st, s[1], w2)
        return x % (1 << w2)

    def concat(self, lo, wlo, hi, whi):
        return lo + hi * (1 << wlo)

    def extract(self, x, w, lo, n):
        r = x / (1 << lo) if lo else x
        return r % (1 << n) if lo + n < w else r

    def ixsigned(self, eng, st, x, w):
        return self.signed(eng, st, x, w)

    def ixc(self, v):
        return z3.IntVal(v if v < (1 << 63) else v - (1 << 64))

    def ult(self, a, b):
        return a < b

    def ule(self, a, b):
        return a <= b

    def inb(self, i, n):
        return z3.And(i >= 0, i < n)

    def umul_ov(self, x, y, w):
        return x * y >= (1 << w)
