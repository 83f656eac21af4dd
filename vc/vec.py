"""Assumed contract on std::vector of scalars: a sequence (length, contents); element references go through one buffer object.
Keep the member functions out of line: modules using this need keep=VECKEEP."""
import re
import z3
from eng import Ptr, Opaque, LinOff, Forall, Arr, Throw
from dom import Unsupported
from lib import trust

VECKEEP = re.compile(r'^(\w[\w:<>*&, ]* )?std::vector<(unsigned |signed )?(char|short|int|long|bool)\b.*>::|' + r'basic_string<.*>::(~)?basic_string|std::operator\+|to_string|std::__throw')
V = r'^std::vector<(unsigned |signed )?(char|short|int|long)\b[^>]*> *>::'
SZ = {'char': 1, 'short': 2, 'int': 4, 'long': 8}


class Vectors:
    """the vectors known to a unit: (object, offset) -> buffer"""

    def __init__(self, c):
        self.c, self.eng = c, c.eng
        self.buf = {}
        self.S = {}
        for pat, h in (
                (r'clear\(\)', self.clear), (r'size\(\) const', self.size), (r'empty\(\) const', self.empty),
                (r'operator\[\]\(unsigned long\)', self.index), (r'at\(unsigned long\)', self.at), (r'c?begin\(\)', self.begin), (r'c?end\(\)', self.end), (r'data\(\)', self.begin),
                (r'push_back\(', self.push_back), (r'(\w[\w ]*& )?emplace_back', self.push_back), (r'pop_back\(\)', self.pop_back), (r'back\(\)', self.back), (r'front\(\)', self.begin),
                (r'reserve\(unsigned long\)', self.nop), (r'erase\(__gnu_cxx::__normal_iterator<[^>]*>\s*>\s*>\)', self.erase1), (r'erase\(__gnu_cxx::__normal_iterator<[\w ]*(const)?\*, [^()]*>\)$', self.erase1),
                (r'insert\(', self.insert1), (r'resize\(unsigned long\)', self.resize), (r'~vector\(\)', self.nop),
                (r'vector\(\)', self.construct), (r'vector\(unsigned long, ', self.construct_n)):
            def h2(eng, st, k, h=h):
                return h(eng, st, k)
            h2.trust = 'std::vector of scalars: standard sequence semantics'
            c.handle(re.compile(r'^(\w[\w:<>*&, ]*[*&> ] ?)?' + V[1:] + pat), h2)

    def add(self, p, S, length=None, name='vec'):
        """the vector at p exists at entry"""
        st = self.c.st
        k = (p.obj.oid, p.c)
        o = self.eng.new_arr(st, name, S, z3.BitVecVal(1 << 61, 64))
        self.buf[k] = o
        self.S[k] = S
        n = length if length is not None else self.c.sym(name + '.len', 64)
        st.ghost['vlen%d:%d' % k] = n
        return o

    def key(self, p):
        if not isinstance(p, Ptr) or p.ix or (p.obj.oid, p.c) not in self.buf:
            raise Unsupported('unknown vector %r' % (p,))
        return (p.obj.oid, p.c)

    def len(self, st, p):
        return st.ghost['vlen%d:%d' % self.key(p)]

    def setlen(self, st, p, n):
        st.setg('vlen%d:%d' % self.key(p), z3.simplify(n))

    def arr(self, st, p):
        return self.eng.arr(st, self.buf[self.key(p)])

    def nop(self, eng, st, k):
        return None

    def construct(self, eng, st, k):
        p = k.args[0]
        key = (p.obj.oid, p.c)
        if key not in self.buf:
            S = SZ[re.search(r'std::vector<(?:unsigned |signed )?(\w+)', k.fn).group(1)]
            self.buf[key] = eng.new_arr(st, 'vec', S, z3.BitVecVal(1 << 61, 64))
            self.S[key] = S
        elif self.buf[key].oid not in st.mem:
            os = eng.new_arr(st, 'vec', self.S[key], z3.BitVecVal(1 << 61, 64))
            self.buf[key] = os
        st.setg('vlen%d:%d' % key, z3.BitVecVal(0, 64))

    def construct_n(self, eng, st, k):
        self.construct(eng, st, k)
        p = k.args[0]
        self.setlen(st, p, k.args[1])
        v = None
        if len(k.args) > 2 and 'allocator<' not in k.fn.split('vector(')[-1].split(',')[1]:
            S = self.S[self.key(p)]
            v = eng.peek(st, k.args[2], 8 * S) if isinstance(k.args[2], Ptr) else None
        S = self.S[self.key(p)]
        v = v if v is not None else z3.BitVecVal(0, 8 * S)
        eng.setarr(st, self.buf[self.key(p)], z3.K(z3.BitVecSort(64), v))

    def clear(self, eng, st, k):
        self.setlen(st, k.args[0], z3.BitVecVal(0, 64))

    def size(self, eng, st, k):
        return self.len(st, k.args[0])

    def empty(self, eng, st, k):
        return self.len(st, k.args[0]) == 0

    def ref(self, p, i):
        key = self.key(p)
        return Ptr(self.buf[key], 0, ((i, self.S[key]),)) if not z3.is_bv_value(z3.simplify(i)) else Ptr(self.buf[key], z3.simplify(i).as_long() * self.S[key])

    def index(self, eng, st, k):
        p, i = k.args
        i = eng.intv(st, i)
        eng.require(st, z3.ULT(i, self.len(st, p)), 'in-bounds', label='vector index in range')
        return self.ref(p, i)

    def at(self, eng, st, k):
        p, i = k.args
        i = eng.intv(st, i)
        s2 = st.fork()
        s2.assume(z3.Not(z3.ULT(i, self.len(st, p))))
        st.assume(z3.ULT(i, self.len(st, p)))
        out = [(st, self.ref(p, i))]
        if eng.feasible(s2, z3.BoolVal(True)):
            out.append(Throw(s2, 'std::out_of_range'))
        return out

    def begin(self, eng, st, k):
        return Ptr(self.buf[self.key(k.args[0])])

    def end(self, eng, st, k):
        return self.ref(k.args[0], self.len(st, k.args[0]))

    def back(self, eng, st, k):
        n = self.len(st, k.args[0])
        eng.require(st, n != 0, 'in-bounds', label='back() of a non-empty vector')
        return self.ref(k.args[0], z3.simplify(n - 1))

    def push_back(self, eng, st, k):
        p = k.args[0]
        key = self.key(p)
        n = self.len(st, p)
        st.assume(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))          # longer vectors cannot exist
        v = eng.peek(st, k.args[1], 8 * self.S[key])
        eng.setarr(st, self.buf[key], z3.Store(self.arr(st, p), n, v))
        self.setlen(st, p, n + 1)
        return self.ref(p, n) if k.ret != ('void',) else None

    def pop_back(self, eng, st, k):
        n = self.len(st, k.args[0])
        eng.require(st, n != 0, 'in-bounds', label='pop_back() of a non-empty vector')
        self.setlen(st, k.args[0], n - 1)

    def pos(self, eng, st, p, it):
        if isinstance(it, Ptr) and it.obj is self.buf[self.key(p)]:
            return eng.lin_div(LinOff(it.c, it.ix), self.S[self.key(p)])
        raise Unsupported('iterator %r' % (it,))

    def erase1(self, eng, st, k):
        if len(k.args) != 2:
            raise Unsupported('vector::erase range')
        p, it = k.args
        key = self.key(p)
        i = self.pos(eng, st, p, it)
        n = self.len(st, p)
        eng.require(st, z3.ULT(i, n), 'in-bounds', label='erase of an existing element')
        a = self.arr(st, p)
        b = eng.freshc('erased', a.sort())
        st.fa.append(Forall([eng.dom.ix], lambda q: z3.Select(b, q) == z3.If(z3.ULT(q, i), z3.Select(a, q), z3.Select(a, q + 1))))
        eng.setarr(st, self.buf[key], b)
        self.setlen(st, p, n - 1)
        return self.ref(p, i)

    def insert1(self, eng, st, k):
        if len(k.args) != 3 or 'initializer_list' in k.fn or 'unsigned long, ' in k.fn.split('insert(')[1]:
            raise Unsupported('vector::insert form')
        p, it, vp = k.args
        key = self.key(p)
        i = self.pos(eng, st, p, it)
        n = self.len(st, p)
        eng.require(st, z3.ULE(i, n), 'in-bounds', label='insert at a valid position')
        v = eng.peek(st, vp, 8 * self.S[key])
        a = self.arr(st, p)
        b = eng.freshc('inserted', a.sort())
        st.fa.append(Forall([eng.dom.ix], lambda q: z3.Select(b, q) == z3.If(z3.ULT(q, i), z3.Select(a, q), z3.If(q == i, v, z3.Select(a, q - 1)))))
        eng.setarr(st, self.buf[key], b)
        self.setlen(st, p, n + 1)
        return self.ref(p, i)

    def resize(self, eng, st, k):
        p, m = k.args
        key = self.key(p)
        n = self.len(st, p)
        a = self.arr(st, p)
        b = eng.freshc('resized', a.sort())
        st.fa.append(Forall([eng.dom.ix], lambda q: z3.Select(b, q) == z3.If(z3.ULT(q, n), z3.Select(a, q), z3.BitVecVal(0, 8 * self.S[key]))))
        eng.setarr(st, self.buf[key], b)
        self.setlen(st, p, m)
