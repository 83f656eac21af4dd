"""Verification-condition generator: forward symbolic execution of LLVM IR under
function contracts and loop invariants."""
import itertools, re, time
import z3
from ir import Module, Ins, I1, PTR, VOID, IRError
from dom import BVDom, IntDom, Unsupported

_oid = itertools.count(1)


class Structure(Exception):
    """the code no longer has the shape the contracts are attached to"""


class Obj:
    def __init__(self, name, kind='heap'):
        self.oid = next(_oid)
        self.name = name
        self.kind = kind

    def __repr__(self):
        return 'Obj(%s#%d)' % (self.name, self.oid)


class Ptr:
    __slots__ = ('obj', 'c', 'ix')

    def __init__(self, obj, c=0, ix=()):
        self.obj, self.c, self.ix = obj, c, ix

    def __repr__(self):
        return 'Ptr(%r+%s%s)' % (self.obj, self.c, ''.join('+%s*%d' % (t, s) for t, s in self.ix))

    def add(self, c=0, ix=()):
        return Ptr(self.obj, self.c + c, norm_ix(self.ix + tuple(ix)))


NULL = Ptr(None)


def norm_ix(ix):
    d = {}
    order = []
    for t, s in ix:
        k = (t.get_id(), s)
        if k in d:
            pass
        d.setdefault(k, []).append((t, s))
        order.append((t, s))
    return tuple(order)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'FnPtr(%s)' % self.name


class Opaque:
    """a value the engine moves around but never looks into"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class LinOff:
    """integer that is a structured byte offset (pointer difference)"""

    def __init__(self, c, ix):
        self.c, self.ix = c, ix


class PInt:
    """ptrtoint of a pointer"""

    def __init__(self, p):
        self.p = p


class Cells:
    kind = 'cells'
    __slots__ = ('start', 'length', 'd', 'fill')

    def __init__(self, start, length, d=None, fill=None):
        self.start, self.length, self.d, self.fill = start, length, d or {}, fill


class Arr:
    kind = 'arr'
    __slots__ = ('start', 'S', 'n', 'f')

    def __init__(self, start, S, n, f):
        self.start, self.S, self.n, self.f = start, S, n, f


class PtrArr:
    """array of pointers: element i is a pointer given by a Python function (read only)"""
    kind = 'ptrarr'
    __slots__ = ('start', 'S', 'n', 'fn', 'length')

    def __init__(self, start, n, fn, S=8):
        self.start, self.n, self.fn, self.S = start, n, fn, S


class Fork:
    """result of a read that depends on a case split: [(condition, value)], conditions exclude each other and cover everything"""
    def __init__(self, alts):
        self.alts = alts


class Volatile:
    """memory nothing is known or remembered about: reads give any value, writes are only checked for bounds"""
    kind = 'volatile'
    __slots__ = ('start', 'S', 'n')

    def __init__(self, start, S, n):
        self.start, self.S, self.n = start, S, n


class OState:
    __slots__ = ('regs', 'alive', 'lazy')

    def __init__(self, regs, alive=True, lazy=None):
        self.regs, self.alive, self.lazy = regs, alive, lazy

    def copy(self):
        return OState(list(self.regs), self.alive, self.lazy)


class Forall:
    def __init__(self, sorts, body, name='', pats=None):
        self.sorts, self.body, self.name, self.pats = sorts, body, name, pats

    def inst(self, ts):
        return self.body(*ts)


def forall(sort, body, name=''):
    return Forall([sort] if not isinstance(sort, (list, tuple)) else list(sort), body, name)


class LoopRec:
    def __init__(self):
        pass


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'call', 'loops', 'visits', 'allocas', 'tag')

    def __init__(self, fn, env, call=None):
        self.fn, self.env, self.call = fn, env, call
        self.blk, self.prev, self.ip = fn.entry, None, 0
        self.loops = {}
        self.visits = {}
        self.allocas = ()
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip, f.call = self.fn, self.blk, self.prev, self.ip, self.call
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        f.visits = dict(self.visits)
        f.allocas = self.allocas
        f.tag = self.tag
        return f


class State:
    def __init__(self):
        self.pc = []
        self.fa = []
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.exc = None
        self.ret = None
        self.done = None
        self.wlog = None
        self.trail = ()
        self.names = {}

    def fork(self):
        s = State.__new__(State)
        s.pc, s.fa, s.mem = list(self.pc), list(self.fa), dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.exc, s.ret, s.done, s.wlog = self.exc, self.ret, self.done, self.wlog
        s.trail = self.trail
        s.names = dict(self.names)
        return s

    def setg(self, k, v):
        self.ghost[k] = v
        if self.wlog is not None:
            self.wlog.add(('ghost', k))

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, Forall):
                self.fa.append(c)
            elif isinstance(c, (list, tuple)):
                self.assume(*c)
            elif c is True:
                pass
            else:
                self.pc.append(c)


class Oblig:
    __slots__ = ('unit', 'label', 'kind', 'site', 'hyps', 'fas', 'goal', 'path', 'status', 'by', 'time', 'model',
                 'hints', 'canary', 'n', 'opt', 'split')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Call:
    __slots__ = ('fn', 'name', 'args', 'types', 'ret', 'ins', 'site')


class Throw:
    def __init__(self, st, ti, obj=None):
        self.st, self.ti, self.obj = st, ti, obj


STD_BASES = {
    'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
    'std::bad_alloc': ['std::exception'], 'std::invalid_argument': ['std::logic_error'],
    'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
    'std::system_error': ['std::runtime_error'], 'std::range_error': ['std::runtime_error'],
    'std::overflow_error': ['std::runtime_error'], 'std::bad_array_new_length': ['std::bad_alloc'],
    'std::filesystem::__cxx11::filesystem_error': ['std::system_error'], 'std::exception': [],
}


class Engine:
    def __init__(self, mods, mode='bv', unit=None, handlers=(), check_nsw=True, opts=None):
        self.allocs = []
        self.mods = mods if isinstance(mods, list) else [mods]
        self.dom = BVDom() if mode == 'bv' else IntDom()
        self.mode = mode
        self.unit = unit
        self.handlers = list(handlers)
        self.check_nsw = check_nsw
        self.obligs = []
        self.quiet = 0
        self._fresh = itertools.count()
        self.mult = {}
        self._uf = {}
        self.gobjs = {}
        self.loop_ids = {}
        self.loop_fired = {}
        self.binding = {}
        self.bind_cands = {}
        self.autoloops = []
        self.objs = {}
        self.dropped = set()
        self.opts = opts or {}
        self.executed = set()
        self.called = set()
        self.nquick = 0
        self.tquick = 0.0
        self.axioms = []
        self.hints = []
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 200000)
        self.deadline = self.opts.get('deadline')
        self.loops_seen = []
        self._p2 = {}
        self.prune = True
        self._pcache = {}
        self.modseed = {}

    # ---------------------------------------------------------------- basics
    def freshc(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self._fresh)), sort)

    def fresh(self, st, name, w):
        v = self.freshc(name, self.dom.sort(w))
        st.pc += self.dom.rng(v, w)
        return v

    def sym(self, st, name, w):
        v = z3.Const(name, self.dom.sort(w))
        st.pc += self.dom.rng(v, w)
        return v

    def uf(self, name, n):
        if name not in self._uf:
            so = z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64)
            self._uf[name] = z3.Function(name, *([so] * (n + 1)))
        return self._uf[name]

    def pow2(self, st, y):
        P = self.uf('pow2', 1)
        t = P(y)
        st.pc += [t >= 1]
        return t

    def check(self, st, extra, ms=400):
        t0 = time.time()
        if self.quiet:
            ms = min(ms, 60)        # only exploring what a loop may write: an open answer merely keeps more paths
        s = z3.Solver()
        s.set('timeout', ms)
        for c in st.pc:
            s.add(c)
        for c in self.axioms:
            s.add(c)
        s.add(extra)
        r = s.check()
        self.nquick += 1
        self.tquick += time.time() - t0
        return str(r)

    def prove(self, st, c, ms=300):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), tuple(x.get_id() for x in st.pc))
        e = self._pcache.get(key)
        if e is not None:
            return e[1]
        r = self.check(st, z3.Not(c), ms) == 'unsat'
        self._pcache[key] = (c, r, list(st.pc))
        return r

    def feasible(self, st, c):
        if not self.prune:
            return True
        return self.check(st, c) != 'unsat'

    def site(self, st):
        out = None
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            ln = f.fn.mod.line(i.dbg) if i.dbg else None
            d = short(f.fn.dem)
            out = '%s:%s' % (d, ln)
            if not f.fn.dem.startswith(('std::', '__gnu_cxx')):
                break
        return out

    def oblig(self, st, goal, kind, site=None, label=None, hints=(), opt=None):
        if isinstance(goal, Forall):
            sk = [self.freshc('sk', s) for s in goal.sorts]
            self.oblig(st, goal.inst(sk), kind, site, label or goal.name, hints, opt)
            return
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.oblig(st, g, kind, site, label, hints, opt)
            return
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        if self.quiet:
            return
        g = z3.simplify(goal)
        site = site or (self.site(st) if st.frames else 'exit')
        o = Oblig(split=self.opts.get('split'), unit=self.unit, label=label or kind, kind=kind, site=site, goal=goal, path=st.trail, status=None,
                  time=0.0, hints=list(hints) + self.hints, opt=opt)
        if z3.is_true(g):
            o.status, o.by = 'proved', 'simplifier'
            o.hyps, o.fas = None, None
        else:
            o.hyps, o.fas = list(st.pc), list(st.fa)
        self.obligs.append(o)

    def require(self, st, goal, kind, site=None, label=None, hints=()):
        """obligation that is assumed afterwards"""
        self.oblig(st, goal, kind, site, label, hints)
        st.assume(goal)

    # ---------------------------------------------------------------- objects
    def newobj(self, st, name, regs, kind='heap'):
        o = Obj(name, kind)
        self.objs[o.oid] = o
        st.mem[o.oid] = OState(regs)
        return o

    def new_arr(self, st, name, elem, n, content=None):
        """elem: int nbytes of a scalar element, or dict inner-> nbytes with 'S'"""
        if isinstance(elem, int):
            fields, S = {0: elem}, elem
        else:
            S = elem['S']
            fields = {k: v for k, v in elem.items() if k != 'S'}
        f = {}
        for inner, nb in fields.items():
            nm = name if len(fields) == 1 else '%s.%d' % (name, inner)
            a = content[inner] if content else self.freshc(nm, z3.ArraySort(self.dom.ix, self.dom.sort(nb * 8)))
            f[inner] = (nb, a)
        o = self.newobj(st, name, [Arr(0, S, n, f)])
        if self.mode == 'int' and not content:
            for inner, (nb, a) in f.items():
                st.fa.append(rngfa(self, a, nb))
        return o

    def regions_for(self, ty, m, off, out):
        ty = m.resolve(ty)
        if ty[0] == 'arr' and ty[1] > 64 and m.resolve(ty[2])[0] in ('i',):
            S = m.size(ty[2])
            f = {0: (S, self.freshc('uninit', z3.ArraySort(self.dom.ix, self.dom.sort(S * 8))))}
            out.append(Arr(off, S, self.dom.ixc(ty[1]), f))
            return
        if ty[0] == 'st' and any(_has_bigarr(t, m) for t in ty[1]):
            for i, t in enumerate(ty[1]):
                self.regions_for(t, m, off + m.offset(ty, i), out)
            return
        out.append(Cells(off, m.size(ty)))

    def alloca(self, st, name, ty, m):
        regs = []
        self.regions_for(ty, m, 0, regs)
        # merge adjacent cells
        mr = []
        for r in regs:
            if mr and r.kind == 'cells' and mr[-1].kind == 'cells':
                mr[-1] = Cells(mr[-1].start, r.start + r.length - mr[-1].start)
            else:
                mr.append(r)
        return self.newobj(st, name, mr, 'stack')

    def region(self, os, p, nb):
        regs = os.regs
        if len(regs) == 1:
            return 0
        best = None
        for i, r in enumerate(regs):
            if r.start <= p.c:
                best = i
        if best is None:
            best = 0
        return best

    def _idx(self, st, r, p):
        """(index term, inner const) in an Arr region"""
        rel = p.c - r.start
        S = r.S
        base, inner = rel // S, rel % S
        t = None
        for x, s in p.ix:
            if s % S == 0:
                k = s // S
                y = x if k == 1 else x * k
                t = y if t is None else t + y
            elif S % s == 0 and self.dom.cval(x) is not None:
                tot = self.dom.cval(x) * s + inner
                base += tot // S
                inner = tot % S
            elif S % s == 0:
                k = S // s
                q, rem = self._split(st, x, k)
                inner += rem * s
                if inner >= S:
                    base += inner // S
                    inner %= S
                t = q if t is None else t + q
            else:
                raise Unsupported('index scale %d over stride %d' % (s, S))
        if t is None:
            return self.dom.ixc(base), inner
        if base:
            t = t + base
        return z3.simplify(t), inner

    def _split(self, st, x, k):
        """x == q*k + rem with a constant rem, when that is syntactically evident"""
        x = z3.simplify(x)
        if z3.is_add(x):
            q, rem = None, 0
            for a in x.children():
                c = self.dom.cval(a)
                if c is not None:
                    rem += c
                    continue
                y, r = self._split(st, a, k)
                rem += r
                q = y if q is None else q + y
            if q is None:
                return self.dom.ixc(rem // k), rem % k
            if rem // k:
                q = q + rem // k
            return q, rem % k
        if z3.is_mul(x) and x.num_args() == 2:
            c = self.dom.cval(x.arg(0))
            if c is not None and c % k == 0:
                return (x.arg(1) * (c // k) if c != k else x.arg(1)), 0
        if self.mode == 'bv' and x.decl().kind() == z3.Z3_OP_CONCAT and k & (k - 1) == 0:
            lo = x.arg(x.num_args() - 1)
            c = self.dom.cval(lo)
            if c == 0 and lo.size() >= k.bit_length() - 1:
                return z3.LShR(x, k.bit_length() - 1), 0
        raise Unsupported('sub-element index %s / %d' % (x, k))

    def _lazy(self, st, p, nb, elt):
        os = st.mem[p.obj.oid]
        if os.lazy is None:
            return os
        size, cnt, S0 = os.lazy
        S = None
        for _, s in p.ix:
            S = s if S is None else min(S, s)
        if S is None:
            S = S0 or nb
        if S0 and S0 != S:
            if S0 % S == 0 and cnt is not None:
                n = cnt * (S0 // S)
            else:
                n = self.udiv_ix(size, S)
        else:
            n = cnt if cnt is not None and (S0 == S) else self.udiv_ix(size, S)
        f = {}
        os = OState([Arr(0, S, n, f)], True, None)
        st.mem[p.obj.oid] = os
        return os

    def udiv_ix(self, x, S):
        if S == 1:
            return x
        return z3.UDiv(x, z3.BitVecVal(S, 64)) if self.mode == 'bv' else x / S

    def access(self, st, p, nb, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.obj is None:
            self.oblig(st, z3.BoolVal(False), 'no-null-dereference')
            raise Kill()
        os = st.mem.get(p.obj.oid)
        if os is None:
            raise Unsupported('unknown object %r' % p.obj)
        if not os.alive:
            self.oblig(st, z3.BoolVal(False), 'no-use-after-free')
            raise Kill()
        os = self._lazy(st, p, nb, None)
        ri = self.region(os, p, nb)
        return os, ri, os.regs[ri]

    def load(self, st, p, ty, m, checked=True):
        ty = m.resolve(ty)
        if ty[0] == 'st':
            return [self.load(st, p.add(m.offset(ty, i)), t, m, checked) for i, t in enumerate(ty[1])]
        if ty[0] == 'arr':
            s = m.size(ty[2])
            return [self.load(st, p.add(i * s), ty[2], m, checked) for i in range(ty[1])]
        if ty[0] == 'vec':
            s = m.size(ty[2])
            return [self.load(st, p.add(i * s), ty[2], m, checked) for i in range(ty[1])]
        nb = m.size(ty)
        w = ty[1] if ty[0] == 'i' else None
        os, ri, r = self.access(st, p, nb, 'load')
        v = self._load(st, os, ri, r, p, nb, ty, checked)
        return self.cv_load(st, v, nb, ty)

    def cv_load(self, st, v, nb, ty):
        if ty[0] == 'i':
            if isinstance(v, Ptr) or isinstance(v, FnPtr):
                if isinstance(v, Ptr) and v.obj is None and not v.ix:
                    return self.dom.const(v.c, ty[1])
                return PInt(v)
            if isinstance(v, (Opaque, PInt, LinOff)):
                return v
            if ty[1] == 1:
                return z3.simplify(self.dom.tobool(v) if z3.is_bool(v) else self.dom.trunc(v, nb * 8, 1)) if not z3.is_bool(v) else v
            if z3.is_bool(v):
                return self.dom.zext(v, 1, ty[1])
            if ty[1] < nb * 8:
                return self.dom.trunc(v, nb * 8, ty[1], self, st)
            return v
        if ty[0] == 'ptr':
            if isinstance(v, PInt):
                return v.p
            if z3.is_expr(v):
                c = self.dom.cval(v)
                if c == 0:
                    return NULL
                return Opaque('ptr<%s>' % v)
            return v
        if ty[0] == 'f':
            return v if isinstance(v, Opaque) else Opaque('fp')
        return v

    def _load(self, st, os, ri, r, p, nb, ty, checked):
        if r.kind == 'cells':
            if p.ix:
                return self._cells_sym_load(st, os, ri, r, p, nb, ty, checked)
            off = p.c
            if checked:
                self._cb(st, r, off, nb)
            return self.cell_get(st, p.obj, ri, off, nb, ty)
        idx, inner = self._idx(st, r, p)
        if checked:
            self.require(st, self.dom.inb(idx, r.n), 'in-bounds', label='in-bounds read of %s' % p.obj.name)
        if r.kind == 'ptrarr':
            return r.fn(self, st, idx, inner)
        if r.kind == 'volatile':
            return self.fresh(st, p.obj.name, nb * 8)
        return self.arr_get(st, p.obj, ri, r, idx, inner, nb, ty)

    def _cb(self, st, r, off, nb):
        if r.length is not None:
            ok = r.start <= off and off + nb <= r.start + r.length
            if not ok:
                self.oblig(st, z3.BoolVal(False), 'in-bounds')
                raise Kill()

    def arr_get(self, st, obj, ri, r, idx, inner, nb, ty):
        e = r.f.get(inner)
        if e is None:
            # sub / super element
            for k, (fb, a) in r.f.items():
                if k <= inner and inner + nb <= k + fb:
                    v = z3.Select(a, idx)
                    return self.dom.extract(v, fb * 8, (inner - k) * 8, nb * 8)
            if not r.f or not any(k < inner + nb and inner < k + fb for k, (fb, a) in r.f.items()):
                a = self.freshc(obj.name + '.u%d' % inner, z3.ArraySort(self.dom.ix, self.dom.sort(nb * 8)))
                f = dict(r.f)
                f[inner] = (nb, a)
                os = st.mem[obj.oid].copy()
                os.regs[ri] = Arr(r.start, r.S, r.n, f)
                st.mem[obj.oid] = os
                if self.mode == 'int':
                    st.fa.append(rngfa(self, a, nb))
                v = z3.Select(a, idx)
                st.pc += self.dom.rng(v, nb * 8)
                return v
            raise Unsupported('array punning')
        fb, a = e
        if fb == nb:
            v = z3.Select(a, idx)
            if self.mode == 'int':
                st.pc += [c for c in self.dom.rng(v, nb * 8)]
            return v
        if fb > nb:
            return self.dom.extract(z3.Select(a, idx), fb * 8, 0, nb * 8)
        # wide read over a byte array
        if r.S == fb and nb % fb == 0:
            v = z3.Select(a, idx)
            for j in range(1, nb // fb):
                v = self.dom.concat(v, fb * 8 * j, z3.Select(a, z3.simplify(idx + j)), fb * 8)
            self.require(st, self.dom.inb(z3.simplify(idx + (nb // fb - 1)), r.n), 'in-bounds')
            return v
        # wide read over consecutive fields of one element
        vs, k = [], inner
        while k < inner + nb:
            if k not in r.f:
                raise Unsupported('array punning (wide)')
            fb2, a2 = r.f[k]
            vs.append((fb2 * 8, z3.Select(a2, idx)))
            k += fb2
        v, w = vs[0][1], vs[0][0]
        for fw, x in vs[1:]:
            v = self.dom.concat(v, w, x, fw)
            w += fw
        if w != nb * 8:
            raise Unsupported('array punning (wide)')
        return v

    def mkfresh(self, st, name, nb, ty):
        if ty[0] == 'ptr':
            return Opaque('uninit-ptr')
        if ty[0] == 'f':
            return Opaque('fp')
        return self.fresh(st, name, nb * 8)

    def cell_get(self, st, obj, ri, off, nb, ty):
        os = st.mem[obj.oid]
        r = os.regs[ri]
        e = r.d.get(off)
        if e is not None and e[0] == nb:
            return e[1]
        # overlap?
        ov = sorted((o, b, v) for o, (b, v) in r.d.items() if o < off + nb and off < o + b) if r.d else []
        if not ov:
            if r.fill is not None:
                v = self.dom.const(int.from_bytes(bytes([r.fill]) * nb, 'little'), nb * 8)
                if ty[0] == 'ptr' and r.fill == 0:
                    v = NULL
            else:
                v = self.mkfresh(st, obj.name + '.%d' % off, nb, ty)
            d = dict(r.d)
            d[off] = (nb, v)
            os = os.copy()
            os.regs[ri] = Cells(r.start, r.length, d, r.fill)
            st.mem[obj.oid] = os
            return v
        if len(ov) == 1 and ov[0][0] <= off and off + nb <= ov[0][0] + ov[0][1]:
            o, b, v = ov[0]
            v = self.scal(st, v, b)
            if v is None:
                raise Unsupported('partial read of non-scalar cell')
            return self.dom.extract(v, b * 8, (off - o) * 8, nb * 8)
        # assemble
        pos = off
        acc, accw = None, 0
        while pos < off + nb:
            hit = [(o, b, v) for o, b, v in ov if o <= pos < o + b]
            if hit:
                o, b, v = hit[0]
                end = min(o + b, off + nb)
                v = self.scal(st, v, b)
                if v is None:
                    raise Unsupported('assembled read of non-scalar cell')
                part = v if (o == pos and end == o + b) else self.dom.extract(v, b * 8, (pos - o) * 8, (end - pos) * 8)
                w = (end - pos) * 8
            else:
                nxt = min([o for o, b, v in ov if o > pos] + [off + nb])
                w = (nxt - pos) * 8
                part = self.dom.const(int.from_bytes(bytes([r.fill]) * (w // 8), 'little'), w) if r.fill is not None \
                    else self.fresh(st, obj.name + '.%d' % pos, w)
                end = nxt
            acc = part if acc is None else self.dom.concat(acc, accw, part, w)
            accw += w
            pos = end
        return z3.simplify(acc)

    def scal(self, st, v, b):
        if isinstance(v, (Ptr, FnPtr, Opaque, PInt, LinOff)):
            if isinstance(v, Ptr) and v.obj is None and not v.ix:
                return self.dom.const(v.c, b * 8)
            return None
        if z3.is_bool(v):
            return self.dom.zext(v, 1, b * 8)
        return v

    def cell_set(self, st, obj, ri, off, nb, val):
        os = st.mem[obj.oid].copy()
        r = os.regs[ri]
        d = dict(r.d)
        for o, (b, v) in list(d.items()):
            if o < off + nb and off < o + b:
                if off <= o and o + b <= off + nb:
                    del d[o]
                else:
                    v = self.scal(st, v, b)
                    del d[o]
                    if v is None:
                        continue   # rest of a partially overwritten pointer: unknown
                    if o < off:
                        d[o] = (off - o, self.dom.extract(v, b * 8, 0, (off - o) * 8))
                    if o + b > off + nb:
                        n = o + b - off - nb
                        d[off + nb] = (n, self.dom.extract(v, b * 8, (off + nb - o) * 8, n * 8))
        d[off] = (nb, val)
        os.regs[ri] = Cells(r.start, r.length, d, r.fill)
        st.mem[obj.oid] = os
        if st.wlog is not None:
            st.wlog.add(('cell', obj.oid, ri, off, nb))

    def _cells_sym_load(self, st, os, ri, r, p, nb, ty, checked):
        if len(p.ix) != 1 or r.length is None:
            raise Unsupported('symbolic access to struct %r' % p)
        x, s = p.ix[0]
        opts = [k for k in range(-((p.c - r.start) // s), (r.start + r.length - p.c - nb) // s + 1)]
        if len(opts) > 300:
            raise Unsupported('symbolic access to a large cell block')
        if checked:
            self.require(st, z3.Or([x == k for k in opts]) if opts else z3.BoolVal(False), 'in-bounds')
        v = None
        for k in opts:
            c = self.cell_get(st, p.obj, ri, p.c + k * s, nb, ty)
            c = self.scal(st, c, nb)
            if c is None:
                raise Unsupported('symbolic access to pointer cells')
            v = c if v is None else z3.If(x == k, c, v)
        return v

    def store(self, st, p, val, ty, m, checked=True):
        ty = m.resolve(ty)
        if ty[0] == 'st':
            if val is None:
                return
            for i, t in enumerate(ty[1]):
                self.store(st, p.add(m.offset(ty, i)), val[i], t, m, checked)
            return
        if ty[0] in ('arr', 'vec'):
            s = m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, p.add(i * s), val[i], ty[2], m, checked)
            return
        nb = m.size(ty)
        os, ri, r = self.access(st, p, nb, 'store')
        if ty[0] == 'i':
            if isinstance(val, LinOff):
                val = self.lin_term(val)
            if isinstance(val, PInt):
                val = val.p
            if ty[1] == 1:
                val = self.dom.zext(self.dom.tobool(val), 1, 8)
            elif ty[1] < nb * 8:
                val = self.dom.zext(val, ty[1], nb * 8)
        self._store(st, os, ri, r, p, nb, val, checked)

    def _store(self, st, os, ri, r, p, nb, val, checked=True):
        if r.kind == 'cells':
            if p.ix:
                if len(p.ix) != 1 or r.length is None:
                    raise Unsupported('symbolic store to struct')
                x, s = p.ix[0]
                opts = [k for k in range(-((p.c - r.start) // s), (r.start + r.length - p.c - nb) // s + 1)]
                if len(opts) > 300:
                    raise Unsupported('symbolic store to a large cell block')
                if checked:
                    self.require(st, z3.Or([x == k for k in opts]) if opts else z3.BoolVal(False), 'in-bounds')
                for k in opts:
                    old = self.cell_get(st, p.obj, ri, p.c + k * s, nb, ('i', nb * 8))
                    old = self.scal(st, old, nb)
                    if old is None or self.scal(st, val, nb) is None:
                        raise Unsupported('symbolic store over pointer cells')
                    self.cell_set(st, p.obj, ri, p.c + k * s, nb, z3.If(x == k, self.scal(st, val, nb), old))
                return
            if checked:
                self._cb(st, r, p.c, nb)
            self.cell_set(st, p.obj, ri, p.c, nb, val)
            return
        idx, inner = self._idx(st, r, p)
        if checked:
            self.require(st, self.dom.inb(idx, r.n), 'in-bounds', label='in-bounds write of %s' % p.obj.name)
        val = self.scal(st, val, nb)
        if r.kind == 'volatile':
            return
        if val is None or r.kind == 'ptrarr':
            raise Unsupported('pointer stored in array')
        e = r.f.get(inner)
        if e is None:
            for k, (fb, a) in r.f.items():
                if k <= inner and inner + nb <= k + fb:
                    old = z3.Select(a, idx)
                    lo = self.dom.extract(old, fb * 8, 0, (inner - k) * 8) if inner > k else None
                    v = val if lo is None else self.dom.concat(lo, (inner - k) * 8, val, nb * 8)
                    wd = (inner - k + nb) * 8
                    if wd < fb * 8:
                        hi = self.dom.extract(old, fb * 8, wd, fb * 8 - wd)
                        v = self.dom.concat(v, wd, hi, fb * 8 - wd)
                    self._aset(st, p.obj, ri, k, fb, z3.Store(a, idx, v))
                    return
            self.arr_get(st, p.obj, ri, r, idx, inner, nb, ('i', nb * 8))
            r = st.mem[p.obj.oid].regs[ri]
            e = r.f[inner]
        fb, a = e
        if fb == nb:
            self._aset(st, p.obj, ri, inner, fb, z3.Store(a, idx, val))
        elif fb > nb:
            old = z3.Select(a, idx)
            v = self.dom.concat(val, nb * 8, self.dom.extract(old, fb * 8, nb * 8, (fb - nb) * 8), (fb - nb) * 8)
            self._aset(st, p.obj, ri, inner, fb, z3.Store(a, idx, v))
        elif r.S == fb and nb % fb == 0:
            self.require(st, self.dom.inb(z3.simplify(idx + (nb // fb - 1)), r.n), 'in-bounds')
            for j in range(nb // fb):
                a = z3.Store(a, z3.simplify(idx + j), self.dom.extract(val, nb * 8, j * fb * 8, fb * 8))
            self._aset(st, p.obj, ri, inner, fb, a)
        else:
            k = inner
            while k < inner + nb:
                if k not in r.f:
                    raise Unsupported('array punning store')
                fb2, a2 = r.f[k]
                self._aset(st, p.obj, ri, k, fb2, z3.Store(a2, idx, self.dom.extract(val, nb * 8, (k - inner) * 8, fb2 * 8)))
                k += fb2

    def _aset(self, st, obj, ri, inner, fb, a):
        os = st.mem[obj.oid].copy()
        r = os.regs[ri]
        f = dict(r.f)
        f[inner] = (fb, a)
        os.regs[ri] = Arr(r.start, r.S, r.n, f)
        st.mem[obj.oid] = os
        if st.wlog is not None:
            st.wlog.add(('arr', obj.oid, ri, inner))

    # raw views for contracts
    def arr(self, st, obj, inner=0, ri=None):
        os = st.mem[obj.oid]
        for i, r in enumerate(os.regs):
            if r.kind == 'arr' and (ri is None or i == ri):
                if inner not in r.f:
                    raise Structure('array field %d of %s untouched' % (inner, obj.name))
                return r.f[inner][1]
        raise Structure('no array region in %s' % obj.name)

    def setarr(self, st, obj, a, inner=0, ri=None):
        os = st.mem[obj.oid]
        for i, r in enumerate(os.regs):
            if r.kind == 'arr' and (ri is None or i == ri):
                self._aset(st, obj, i, inner, r.f[inner][0], a)
                return

    def peek(self, st, p, w):
        """value of an integer cell, unchecked"""
        ty = ('i', w)
        os, ri, r = self.access(st, p, w // 8 if w > 1 else 1, 'peek')
        return self.cv_load(st, self._load(st, os, ri, r, p, max(1, w // 8), ty, False), max(1, w // 8), ty)

    def peekp(self, st, p):
        os, ri, r = self.access(st, p, 8, 'peek')
        return self.cv_load(st, self._load(st, os, ri, r, p, 8, PTR, False), 8, PTR)

    def poke(self, st, p, w, v):
        os, ri, r = self.access(st, p, w // 8 if w > 1 else 1, 'poke')
        if z3.is_expr(v) and z3.is_bool(v):
            v = self.dom.zext(v, 1, 8)
        self._store(st, os, ri, r, p, max(1, w // 8), v, False)

    # ---------------------------------------------------------------- memory blocks
    def memcpy(self, st, d, s, n, move=False):
        cn = self.dom.cval(n)
        if cn == 0:
            return
        if cn is not None and isinstance(d, Ptr) and isinstance(s, Ptr):
            do, dri, dr = self.access(st, d, 1, 'memcpy')
            so, sri, sr = self.access(st, s, 1, 'memcpy')
            if dr.kind == 'cells' and sr.kind == 'cells' and not d.ix and not s.ix:
                self._cb(st, dr, d.c, cn)
                self._cb(st, sr, s.c, cn)
                cells = sorted((o, b, v) for o, (b, v) in sr.d.items() if o < s.c + cn and s.c < o + b)
                pos = s.c
                todo = []
                for o, b, v in cells:
                    if o < pos or o + b > s.c + cn:
                        lo, hi = max(o, s.c), min(o + b, s.c + cn)
                        todo.append((lo - s.c, hi - lo, self.cell_get(st, s.obj, sri, lo, hi - lo, ('i', 8 * (hi - lo)))))
                    else:
                        todo.append((o - s.c, b, v))
                # the destination range becomes exactly those cells
                for ri2, r2 in [(dri, st.mem[d.obj.oid].regs[dri])]:
                    dd = dict(r2.d)
                    for o, (b, v) in list(dd.items()):
                        if o < d.c + cn and d.c < o + b:
                            if not (d.c <= o and o + b <= d.c + cn):
                                v2 = self.scal(st, v, b)
                                if v2 is None:
                                    raise Unsupported('memcpy over part of a pointer')
                                if o < d.c:
                                    dd[o] = (d.c - o, self.dom.extract(v2, b * 8, 0, (d.c - o) * 8))
                                else:
                                    del dd[o]
                                if o + b > d.c + cn:
                                    k = o + b - d.c - cn
                                    dd[d.c + cn] = (k, self.dom.extract(v2, b * 8, (d.c + cn - o) * 8, k * 8))
                            else:
                                del dd[o]
                    for o, b, v in todo:
                        dd[d.c + o] = (b, v)
                    if sr.fill != r2.fill:
                        # bytes never touched in the source keep its fill (or stay unknown)
                        pos = 0
                        for o, b, v in sorted(todo, key=lambda x: x[0]) + [(cn, 0, None)]:
                            while pos < o:
                                k = next(k for k in (8, 4, 2, 1) if (s.c + pos) % k == 0 and pos + k <= o)
                                dd[d.c + pos] = (k, self.dom.const(int.from_bytes(bytes([sr.fill]) * k, 'little'), 8 * k) if sr.fill is not None else self.fresh(st, s.obj.name + '.pad', 8 * k))
                                pos += k
                            pos = max(pos, o + b)
                    os = st.mem[d.obj.oid].copy()
                    os.regs[ri2] = Cells(r2.start, r2.length, dd, r2.fill)
                    st.mem[d.obj.oid] = os
                    if st.wlog is not None:
                        st.wlog.add(('cell', d.obj.oid, ri2, d.c, cn))
                return
            if cn <= 128:
                # generic: chunk copy
                ch = None
                for r, p in ((dr, d), (sr, s)):
                    if r.kind == 'ptrarr':
                        ch = 8
                    if r.kind == 'arr':
                        if r.f:
                            inner = sorted(r.f)
                            c = r.f[inner[0]][0]
                            ch = c if ch is None else min(ch, c)
                ch = ch or 1
                if cn % ch == 0:
                    vals = []
                    for o in range(0, cn, ch):
                        q = s.add(o)
                        os2, ri2, r2 = self.access(st, q, ch, 'memcpy')
                        vals.append(self._load(st, os2, ri2, r2, q, ch, ('i', ch * 8), True))
                    for o, v in zip(range(0, cn, ch), vals):
                        q = d.add(o)
                        os2, ri2, r2 = self.access(st, q, ch, 'memcpy')
                        self._store(st, os2, ri2, r2, q, ch, v)
                    return
        # symbolic length between arrays
        do, dri, dr = self.access(st, d, 1, 'memcpy')
        so, sri, sr = self.access(st, s, 1, 'memcpy')
        if dr.kind != 'arr' or sr.kind != 'arr':
            raise Unsupported('symbolic memcpy on structs')
        if not dr.f and sr.f:
            # untouched heap block: adopt the source's layout
            for inner, (b, a) in sr.f.items():
                self.arr_get(st, d.obj, dri, Arr(dr.start, sr.S, dr.n, {}), self.dom.ixc(0), inner, b, ('i', b * 8))
            dr = st.mem[d.obj.oid].regs[dri]
        S = sr.S
        if dr.S != S or set(dr.f) != set(sr.f):
            raise Unsupported('memcpy between different layouts')
        di, dn = self._idx(st, dr, d)
        si, sn = self._idx(st, sr, s)
        if dn or sn:
            raise Unsupported('memcpy at inner offset')
        cnt = self.elems(st, n, S)
        zero = self.dom.ixc(0)
        self.require(st, z3.Or(cnt == zero, z3.And(self.dom.ule(cnt, dr.n), self.dom.ule(di, dr.n - cnt))), 'in-bounds',
                     label='in-bounds block write')
        self.require(st, z3.Or(cnt == zero, z3.And(self.dom.ule(cnt, sr.n), self.dom.ule(si, sr.n - cnt))), 'in-bounds',
                     label='in-bounds block read')
        for inner, (b, a) in sr.f.items():
            old = dr.f[inner][1]
            new = self.freshc(d.obj.name + '.cp', old.sort())
            ult, inb = self.dom.ult, self.dom.inb
            st.fa.append(forall(self.dom.ix, lambda k, new=new, old=old, a=a, di=di, si=si, cnt=cnt: z3.Select(new, k) == z3.If(
                self._inrange(k, di, cnt), z3.Select(a, k - di + si), z3.Select(old, k)), 'memcpy'))
            self._aset(st, d.obj, dri, inner, b, new)

    def _inrange(self, k, lo, cnt):
        if self.mode == 'bv':
            return z3.ULT(k - lo, cnt)
        return z3.And(k >= lo, k < lo + cnt)

    def elems(self, st, n, S):
        if S == 1:
            return n
        if isinstance(n, LinOff):
            return self.lin_div(n, S)
        n = z3.simplify(n)
        c = self.dom.cval(n)
        if c is not None:
            return self.dom.ixc(c // S)
        if z3.is_mul(n) and n.num_args() == 2 and self.dom.cval(n.arg(0)) == S:
            return n.arg(1)
        if self.mode == 'bv' and n.decl().kind() == z3.Z3_OP_CONCAT:
            q, rem = self._split(st, n, S)
            return q
        return self.udiv_ix(n, S)

    def memset(self, st, d, v, n):
        cn = self.dom.cval(n)
        if cn == 0:
            return
        do, dri, dr = self.access(st, d, 1, 'memset')
        cv = self.dom.cval(v)
        if dr.kind == 'cells' and cn is not None and not d.ix and cv is not None:
            self._cb(st, dr, d.c, cn)
            os = st.mem[d.obj.oid].copy()
            if d.c == dr.start and cn == dr.length:
                os.regs[dri] = Cells(dr.start, dr.length, {}, cv)
                st.mem[d.obj.oid] = os
                if st.wlog is not None:
                    st.wlog.add(('cell', d.obj.oid, dri, d.c, cn))
                return
            pos = 0
            while pos < cn:
                b = 8 if cn - pos >= 8 and (d.c + pos) % 8 == 0 else 4 if cn - pos >= 4 and (d.c + pos) % 4 == 0 else 1
                val = int.from_bytes(bytes([cv]) * b, 'little')
                self.cell_set(st, d.obj, dri, d.c + pos, b, self.dom.const(val, b * 8))
                pos += b
            return
        if dr.kind == 'arr' and cv is not None:
            di, inner = self._idx(st, dr, d)
            cnt = self.elems(st, n, dr.S)
            self.require(st, z3.Or(cnt == self.dom.ixc(0), z3.And(self.dom.ule(cnt, dr.n), self.dom.ule(di, dr.n - cnt))),
                         'in-bounds', label='in-bounds block write')
            if not dr.f:
                # untouched heap block: remember the fill for whatever field is read first
                b = dr.S if dr.S in (1, 2, 4, 8) else None
                if b is None:
                    raise Unsupported('memset of untyped block')
                self.arr_get(st, d.obj, dri, dr, self.dom.ixc(0), 0, b, ('i', b * 8))
                dr = st.mem[d.obj.oid].regs[dri]
            for inner, (b, a) in dr.f.items():
                val = self.dom.const(int.from_bytes(bytes([cv]) * b, 'little'), b * 8)
                new = self.freshc(d.obj.name + '.set', a.sort())
                st.fa.append(forall(self.dom.ix, lambda k, new=new, a=a, val=val: z3.Select(new, k) == z3.If(
                    self._inrange(k, di, cnt), val, z3.Select(a, k)), 'memset'))
                self._aset(st, d.obj, dri, inner, b, new)
            return
        raise Unsupported('memset')

    # ---------------------------------------------------------------- linear offsets
    def lin_term(self, l):
        t = self.dom.ixc(l.c) if self.mode == 'bv' else z3.IntVal(l.c)
        for x, s in l.ix:
            t = t + x * s
        t = z3.simplify(t)
        if self.mode == 'int':
            c = self.dom.cval(t)
            if c is not None:
                return z3.IntVal(c % (1 << 64))
        return t

    def lin_div(self, l, k):
        if l.c % k or any(s % k for _, s in l.ix):
            return None
        return self.lin_term(LinOff(l.c // k, tuple((t, s // k) for t, s in l.ix)))

    def pdiff(self, a, b):
        return LinOff(a.c - b.c, a.ix + tuple((t, -s) for t, s in b.ix))

    def poff(self, p):
        return self.lin_term(LinOff(p.c, p.ix))

    def intv(self, st, v, w=64):
        """coerce special ints to terms"""
        if isinstance(v, LinOff):
            t = self.lin_term(v)
            if self.mode == 'int':
                return self.dom.canon(self, st, t, w)
            return t
        if isinstance(v, PInt):
            if not isinstance(v.p, Ptr) or v.p.obj is None:
                if isinstance(v.p, Ptr):
                    return self.dom.const(v.p.c, w)
                return self.fresh(st, 'paddr', w)
            base = z3.Const('addr!%d' % v.p.obj.oid, self.dom.ix)
            t = z3.simplify(base + self.poff(v.p))
            if self.mode == 'bv':
                st.pc += [base != 0, z3.Extract(3, 0, base) == 0, z3.ULT(base, 1 << 47)]
            else:
                st.pc += [base > 0, base % 16 == 0, base < 1 << 47]
            return t
        if isinstance(v, Opaque):
            return self.fresh(st, 'opq', w)
        if v is None:
            return self.fresh(st, 'undef', w)
        return v

    # ---------------------------------------------------------------- constants / operands
    def globobj(self, st, name, m):
        o = self.gobjs.get((name))
        if o is None:
            o = Obj('@' + name, 'global')
            self.gobjs[name] = o
        if o.oid not in st.mem:
            g = None
            for mm in [m] + self.mods:
                g = mm.gvar(name)
                if g and g[1] is not None:
                    m = mm
                    break
            if g is None:
                st.mem[o.oid] = OState([Cells(0, None)])
            else:
                ty, init, const = g
                regs = []
                self.regions_for(ty, m, 0, regs)
                st.mem[o.oid] = OState(regs)
                if init is not None and (const or self.opts.get('ginit')):
                    wl = st.wlog
                    st.wlog = None
                    self.ginit(st, Ptr(o), ty, init, m)
                    st.wlog = wl
        return o

    def ginit(self, st, p, ty, v, m):
        ty = m.resolve(ty)
        if v[0] in ('zero', 'undef'):
            os = st.mem[p.obj.oid]
            if len(os.regs) == 1 and os.regs[0].kind == 'cells' and p.c == 0:
                os.regs[0].fill = 0
            return
        if v[0] == 'cstr':
            b = cstr(v[1])
            os, ri, r = self.access(st, p, 1, 'init')
            for i, x in enumerate(b):
                q = p.add(i)
                self._store(st, st.mem[p.obj.oid], ri, st.mem[p.obj.oid].regs[ri], q, 1, self.dom.const(x, 8), False)
            return
        if v[0] == 'agg':
            if ty[0] == 'st':
                for i, (t, x) in enumerate(v[1]):
                    self.ginit(st, p.add(m.offset(ty, i)), t, x, m)
            else:
                s = m.size(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.ginit(st, p.add(i * s), t, x, m)
            return
        val = self.const(st, ty, v, m)
        self.store(st, p, val, ty, m, False)

    def const(self, st, ty, v, m):
        ty = m.resolve(ty)
        k = v[0]
        if k == 'int':
            if ty[0] == 'f':
                return Opaque('fp')
            return self.dom.const(v[1], ty[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            if ty[0] == 'i':
                return self.dom.const(0, ty[1])
            if ty[0] == 'ptr':
                return NULL
            if ty[0] == 'st':
                return [self.const(st, t, v, m) for t in ty[1]]
            if ty[0] in ('arr', 'vec'):
                return [self.const(st, ty[2], v, m) for _ in range(ty[1])]
            return Opaque('fp')
        if k == 'undef':
            if ty[0] == 'st':
                return [self.const(st, t, v, m) for t in ty[1]]
            if ty[0] in ('arr', 'vec'):
                return [self.const(st, ty[2], v, m) for _ in range(ty[1])]
            if ty[0] == 'i':
                return self.fresh(st, 'undef', ty[1])
            return Opaque('undef')
        if k == 'agg':
            return [self.const(st, t, x, m) for t, x in v[1]]
        if k == 'fp':
            return Opaque('fp:' + v[1])
        if k == 'glob':
            if v[1] in m.fns or v[1] in m.decl or any(v[1] in mm.fns for mm in self.mods):
                return FnPtr(v[1])
            g = m.gvar(v[1])
            if g is None and v[1] in m._gl and ' alias ' in m._gl[v[1]]:
                t = re.findall(r'@[-\w$.]+', m._gl[v[1]])
                return FnPtr(t[-1][1:])
            return Ptr(self.globobj(st, v[1], m))
        if k == 'gep':
            base = self.const(st, PTR, v[2][0][1], m)
            idx = [self.const(st, t, x, m) for t, x in v[2][1:]]
            return self.gep(st, base, v[1], [t for t, _ in v[2][1:]], idx, m)
        if k == 'cast':
            x = self.const(st, v[2][0], v[2][1], m)
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr':
                c = self.dom.cval(x) if z3.is_expr(x) else None
                if c is not None:
                    return Ptr(None, c)
            return x
        if k == 'cop':
            xs = [self.const(st, t, x, m) for t, x in v[2]]
            t = m.resolve(v[2][0][0])
            if v[1] == 'sub' and all(isinstance(x, PInt) for x in xs):
                return self.fresh(st, 'cdiff', t[1])
            return self.dom.bin(self, st, v[1], self.intv(st, xs[0]), self.intv(st, xs[1]), t[1], set(), None)
        raise Unsupported('const %r' % (v,))

    def val(self, st, ty, v, m):
        if v[0] == 'loc':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('undefined %s' % v[1])
        return self.const(st, ty, v, m)

    def gep(self, st, base, ty, its, idx, m):
        if not isinstance(base, Ptr):
            if isinstance(base, FnPtr):
                return base
            raise Unsupported('gep on %r' % base)
        c = 0
        ix = []
        t = ty
        for n, (it, x) in enumerate(zip(its, idx)):
            w = m.resolve(it)[1]
            if n == 0:
                s = m.size(t)
            else:
                t = m.resolve(t)
                if t[0] == 'st':
                    k = self.dom.cval(x)
                    c += m.offset(t, k)
                    t = t[1][k]
                    continue
                t = t[2]
                s = m.size(t)
            if isinstance(x, LinOff):
                c += x.c * s
                ix += [(tt, ss * s) for tt, ss in x.ix]
                continue
            x = self.intv(st, x)
            k = self.dom.cval(x)
            if k is not None:
                if k >= 1 << (w - 1):
                    k -= 1 << w
                c += k * s
            else:
                xs = z3.simplify(self.dom.ixsigned(self, st, x, w))
                if z3.is_add(xs):
                    # pull the constant out
                    rest = []
                    for a in xs.children():
                        kc = self.dom.cval(a)
                        if kc is not None:
                            if self.mode == 'bv' and kc >= 1 << 63:
                                kc -= 1 << 64
                            c += kc * s
                        else:
                            rest.append(a)
                    if not rest:
                        continue
                    xs = rest[0]
                    for a in rest[1:]:
                        xs = xs + a
                ix.append((xs, s))
        return base.add(c, ix)

    # ---------------------------------------------------------------- running
    def find_fn(self, name):
        for m in self.mods:
            f = m.fns.get(name)
            if f:
                return f
        return None

    def start(self, st, fn, args):
        fn.parse()
        self.executed.add(fn.dem)
        env = {}
        for (t, n, at), a in zip(fn.params, args):
            env[n] = a
        st.frames.append(Frame(fn, env))

    def run(self, st):
        """explore from st until its bottom frame ends; returns terminal states"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                nxt = self.step(s)
            except Kill:
                continue
            for t in nxt:
                if t.done:
                    out.append(t)
                else:
                    work.append(t)
        return out

    def step(self, st):
        """run st until it forks, ends or dies"""
        while True:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            r = getattr(self, 'i_' + ins.op, None)
            if r is None:
                if ins.op in BIN:
                    r = self.i_bin
                elif ins.op in CAST:
                    r = self.i_cast
                else:
                    raise Unsupported('instruction ' + ins.op)
            res = r(st, f, ins)
            if res is None:
                f.ip += 1
                continue
            if len(res) == 1 and res[0] is st and not st.done:
                continue
            return res

    def v(self, st, f, tv):
        return self.val(st, tv[0], tv[1], f.fn.mod)

    def i_bin(self, st, f, ins):
        a = ins.a
        m = f.fn.mod
        t = m.resolve(a['t'])
        x, y = self.val(st, t, a['x'], m), self.val(st, t, a['y'], m)
        if t[0] == 'vec':
            raise Unsupported('vector op')
        if t[0] == 'f':
            f.env[ins.dst] = self.fpop(st, ins.op, x, y)
            return None
        w = t[1]
        if ins.op == 'sub' and isinstance(x, PInt) and isinstance(y, PInt) and isinstance(x.p, Ptr) and isinstance(y.p, Ptr) \
                and x.p.obj is y.p.obj:
            f.env[ins.dst] = self.pdiff(x.p, y.p)
            return None
        if isinstance(x, LinOff):
            cy = self.dom.cval(y) if z3.is_expr(y) else None
            if ins.op == 'sdiv' and cy and 'exact' in a['fl'] or ins.op in ('sdiv', 'udiv') and cy:
                r = self.lin_div(x, cy)
                if r is not None:
                    if self.mode == 'int':
                        r = self.dom.canon(self, st, r, w)
                    f.env[ins.dst] = r
                    return None
            if ins.op == 'ashr' and cy is not None:
                r = self.lin_div(x, 1 << cy)
                if r is not None:
                    if self.mode == 'int':
                        r = self.dom.canon(self, st, r, w)
                    f.env[ins.dst] = r
                    return None
        x, y = self.intv(st, x, w), self.intv(st, y, w)
        r = self.dom.bin(self, st, ins.op, x, y, w, a['fl'], None)
        keep = self.mult.get(r.get_id())
        s = r if keep else z3.simplify(r)
        if self.mode == 'int':
            e = self.dom.sg.get((r.get_id(), w))
            if e is not None and s is not r:
                self.dom.sg[(s.get_id(), w)] = (s, e[1])
        f.env[ins.dst] = s
        return None

    def fpop(self, st, op, x, y):
        return Opaque('fp')

    def i_fneg(self, st, f, ins):
        f.env[ins.dst] = Opaque('fp')

    def i_fcmp(self, st, f, ins):
        f.env[ins.dst] = self.fresh(st, 'fcmp', 1)

    def i_cast(self, st, f, ins):
        a = ins.a
        m = f.fn.mod
        t, t2 = m.resolve(a['t']), m.resolve(a['to'])
        x = self.val(st, t, a['x'], m)
        op = ins.op
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(x, LinOff) and op == 'trunc':
                x = self.intv(st, x)
            if isinstance(x, (PInt, Opaque)):
                x = self.intv(st, x, t[1])
            if op == 'zext':
                r = self.dom.zext(self.dom.tobool(x) if t[1] == 1 else x, t[1], t2[1], self, st)
            elif op == 'sext':
                r = self.dom.sext(self.dom.tobool(x) if t[1] == 1 else x, t[1], t2[1], self, st)
            else:
                r = self.dom.trunc(x, t[1], t2[1], self, st)
            s = z3.simplify(r)
            if self.mode == 'int':
                e = self.dom.sg.get((r.get_id(), t2[1]))
                if e is not None:
                    self.dom.sg[(s.get_id(), t2[1])] = (s, e[1])
            f.env[ins.dst] = s
        elif op == 'ptrtoint':
            f.env[ins.dst] = PInt(x)
        elif op == 'inttoptr':
            if isinstance(x, PInt):
                f.env[ins.dst] = x.p
            elif z3.is_expr(x) and self.dom.cval(x) is not None:
                f.env[ins.dst] = Ptr(None, self.dom.cval(x))
            else:
                f.env[ins.dst] = Opaque('inttoptr')
        elif op in ('bitcast', 'addrspacecast'):
            f.env[ins.dst] = x
        elif op in ('fptoui', 'fptosi'):
            f.env[ins.dst] = self.fresh(st, 'fptoi', t2[1])
        else:
            f.env[ins.dst] = Opaque('fp')
        return None

    def i_icmp(self, st, f, ins):
        a = ins.a
        m = f.fn.mod
        t = m.resolve(a['t'])
        x, y = self.val(st, t, a['x'], m), self.val(st, t, a['y'], m)
        f.env[ins.dst] = self.cmp(st, a['p'], x, y, t)
        return None

    def cmp(self, st, p, x, y, t):
        if t[0] == 'ptr' or isinstance(x, PInt) and isinstance(y, PInt):
            x = x.p if isinstance(x, PInt) else x
            y = y.p if isinstance(y, PInt) else y
            return self.pcmp(st, p, x, y)
        w = t[1]
        x, y = self.intv(st, x, w), self.intv(st, y, w)
        return z3.simplify(self.dom.icmp(self, st, p, x, y, w))

    def pcmp(self, st, p, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if p in ('eq', 'ne'):
                same = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
                return z3.BoolVal(same if p == 'eq' else not same)
            raise Unsupported('fnptr order')
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if x is y:
                return z3.BoolVal(p in ('eq', 'ule', 'uge', 'sle', 'sge'))
            return self.fresh(st, 'pcmp', 1)
        if x.obj is not y.obj:
            # chain of nodes (one object): the element before the first stands for the null pointer
            for a, b in ((x, y), (y, x)):
                if a.obj is not None and getattr(a.obj, 'nullable', None) and b.obj is None and b.c == 0 and p in ('eq', 'ne'):
                    c = self.poff(a) == self.dom.ixc(-a.obj.nullable)
                    return z3.simplify(c if p == 'eq' else z3.Not(c))
            if p == 'eq':
                return z3.BoolVal(False)
            if p == 'ne':
                return z3.BoolVal(True)
            if (x.obj is None) != (y.obj is None):
                lt = x.obj is None
                return z3.BoolVal({'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}[p])
            raise Unsupported('order of pointers to different objects')
        d = self.pdiff(x, y)
        if not d.ix:
            c = d.c
            return z3.BoolVal({'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0,
                               'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[p])
        # divide by common scale
        import math
        g = 0
        for _, s in d.ix:
            g = math.gcd(g, abs(s))
        if d.c % g == 0:
            cx, cy = x.c // g, y.c // g
            if x.c % g == 0 and y.c % g == 0:
                a = self.lin_term(LinOff(cx, tuple((t, s // g) for t, s in x.ix)))
                b = self.lin_term(LinOff(cy, tuple((t, s // g) for t, s in y.ix)))
            else:
                a, b = self.lin_term(LinOff(d.c // g, tuple((t, s // g) for t, s in d.ix))), self.dom.ixc(0)
        else:
            if p in ('eq', 'ne'):
                return z3.BoolVal(p == 'ne')
            a, b = self.poff(x), self.poff(y)
        if p == 'eq':
            return z3.simplify(a == b)
        if p == 'ne':
            return z3.simplify(a != b)
        # offsets inside one object are small: signed compare is exact
        return z3.simplify({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p.replace('s', 'u')])

    def i_phi(self, st, f, ins):
        raise Unsupported('phi reached')

    def i_select(self, st, f, ins):
        a = ins.a
        c = self.dom.tobool(self.v(st, f, a['c']))
        x, y = self.v(st, f, a['x']), self.v(st, f, a['y'])
        c = z3.simplify(c)
        if z3.is_true(c):
            f.env[ins.dst] = x
            return None
        if z3.is_false(c):
            f.env[ins.dst] = y
            return None
        if z3.is_expr(x) and z3.is_expr(y):
            f.env[ins.dst] = z3.simplify(z3.If(c, x, y))
            return None
        outs = []
        for cond, v in ((c, x), (z3.Not(c), y)):
            if self.feasible(st, cond):
                s = st.fork()
                s.pc.append(cond)
                s.frames[-1].env[ins.dst] = v
                s.frames[-1].ip += 1
                outs.append(s)
        return outs

    def i_alloca(self, st, f, ins):
        t, n = ins.a['t'], ins.a['n']
        m = f.fn.mod
        if n is not None:
            k = self.v(st, f, n)
            c = self.dom.cval(k)
            if c is None:
                s = m.size(t)
                nn = self.dom.zext(k, m.resolve(n[0])[1], 64) if m.resolve(n[0])[1] < 64 else k
                o = self.newobj(st, ins.dst, [Arr(0, s, nn, {})], 'stack')
                f.env[ins.dst] = Ptr(o)
                return None
            if c != 1:
                t = ('arr', c, t)
        o = self.alloca(st, ins.dst, t, m)
        f.env[ins.dst] = Ptr(o)
        f.allocas = f.allocas + (o.oid,)
        return None

    def i_load(self, st, f, ins):
        p = self.v(st, f, ins.a['p'])
        if self.opts.get('watch'):
            self.opts['watch'](self, st, p, False)
        v = self.load(st, p, ins.a['t'], f.fn.mod)
        if isinstance(v, Fork):
            alts = [(g, x) for g, x in v.alts if self.feasible(st, g)]
            if not alts:
                raise Kill()
            outs = []
            for k, (g, x) in enumerate(alts):
                s = st.fork() if k + 1 < len(alts) else st
                s.pc.append(g)
                s.frames[-1].env[ins.dst] = x
                s.frames[-1].ip += 1
                outs.append(s)
            return outs
        f.env[ins.dst] = v
        return None

    def i_store(self, st, f, ins):
        v = self.v(st, f, ins.a['v'])
        p = self.v(st, f, ins.a['p'])
        if self.opts.get('watch'):
            self.opts['watch'](self, st, p, True)
        if self.opts.get('on_store'):
            self.opts['on_store'](self, st, p, v, ins.a['v'][0])
        self.store(st, p, v, ins.a['v'][0], f.fn.mod)
        return None

    def i_getelementptr(self, st, f, ins):
        a = ins.a
        ops = a['ops']
        base = self.v(st, f, ops[0])
        idx = [self.v(st, f, o) for o in ops[1:]]
        f.env[ins.dst] = self.gep(st, base, a['t'], [o[0] for o in ops[1:]], idx, f.fn.mod)
        return None

    def i_extractvalue(self, st, f, ins):
        v = self.v(st, f, ins.a['v'])
        for i in ins.a['ix']:
            v = v[i]
        f.env[ins.dst] = v
        return None

    def i_insertvalue(self, st, f, ins):
        v = self.v(st, f, ins.a['v'])
        x = self.v(st, f, ins.a['x'])

        def ins_(v, ix):
            v = list(v)
            v[ix[0]] = x if len(ix) == 1 else ins_(v[ix[0]], ix[1:])
            return v
        f.env[ins.dst] = ins_(v, ins.a['ix'])
        return None

    def i_extractelement(self, st, f, ins):
        v, i = [self.v(st, f, o) for o in ins.a['ops']]
        f.env[ins.dst] = v[self.dom.cval(i)]

    def i_insertelement(self, st, f, ins):
        v, x, i = [self.v(st, f, o) for o in ins.a['ops']]
        v = list(v)
        v[self.dom.cval(i)] = x
        f.env[ins.dst] = v

    def i_freeze(self, st, f, ins):
        f.env[ins.dst] = self.v(st, f, ins.a['v'])

    def i_fence(self, st, f, ins):
        return None

    def i_unreachable(self, st, f, ins):
        raise Kill()

    # ---- control
    def i_br(self, st, f, ins):
        a = ins.a
        if 'c' not in a:
            return self.goto(st, a['t'])
        c = self.val(st, I1, a['c'], f.fn.mod)
        c = z3.simplify(self.dom.tobool(self.intv(st, c, 1)))
        if a['t'] == a['f']:
            return self.goto(st, a['t'])
        if z3.is_true(c):
            return self.goto(st, a['t'])
        if z3.is_false(c):
            return self.goto(st, a['f'])
        outs = []
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c))
        if ft and not ff:
            st.pc.append(c)
            return self.goto(st, a['t'])
        if ff and not ft:
            st.pc.append(z3.Not(c))
            return self.goto(st, a['f'])
        if not ft and not ff:
            raise Kill()
        s2 = st.fork()
        s2.pc.append(z3.Not(c))
        st.pc.append(c)
        for s, b in ((st, a['t']), (s2, a['f'])):
            try:
                outs += self.goto(s, b)
            except Kill:
                pass
        return outs

    def i_switch(self, st, f, ins):
        a = ins.a
        m = f.fn.mod
        t = m.resolve(a['t'])
        x = self.intv(st, self.val(st, t, a['x'], m), t[1])
        conds = [(x == self.dom.const(k, t[1]), b) for k, b in a['cases']]
        outs = []
        neg = []
        for c, b in conds:
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c) or self.feasible(st, c):
                s = st.fork()
                s.pc.append(c)
                try:
                    outs += self.goto(s, b)
                except Kill:
                    pass
            neg.append(z3.Not(c))
            if z3.is_true(c):
                return outs
        d = z3.And(neg) if neg else z3.BoolVal(True)
        if self.feasible(st, d):
            st.pc += neg
            try:
                outs += self.goto(st, a['d'])
            except Kill:
                pass
        return outs

    def phis(self, fn, b):
        out = []
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            out.append(i)
        return out

    def goto(self, st, b):
        f = st.frames[-1]
        fn = f.fn
        prev = f.blk
        # leaving loops
        for h in list(f.loops):
            if b not in fn.loops[h]:
                del f.loops[h]
        for h in list(f.visits):
            if b not in fn.loops[h]:
                del f.visits[h]
        ph = self.phis(fn, b)
        vals = []
        for i in ph:
            for v, pb in i.a['inc']:
                if pb == prev:
                    vals.append(self.val(st, i.a['t'], v, fn.mod))
                    break
            else:
                raise Unsupported('phi edge')
        if b in fn.loops:
            return self.loop_head(st, f, b, ph, vals, prev)
        for i, v in zip(ph, vals):
            f.env[i.dst] = v
        f.prev, f.blk, f.ip = prev, b, len(ph)
        return [st]

    # ---------------------------------------------------------------- loops
    def loop_spec(self, fn, h):
        key = (fn.name, h)
        if key in self.loop_ids:
            return self.loop_ids[key]
        spec = None
        u = self.opts.get('loops', [])
        for sp in u:
            if getattr(sp, 'fn', None) and re.search(sp.fn, fn.dem) and not sp.taken:
                if getattr(sp, 'header', None) and not h.startswith(sp.header):
                    continue
                sp.taken = key
                spec = sp
                break
        if spec is None and not fn.dem.startswith(('std::', '__gnu_cxx', 'void std::', 'bool std::')) and not self.const_loop(fn, h):
            for sp in u:
                if not sp.taken and not getattr(sp, 'fn', None):
                    sp.taken = key
                    spec = sp
                    break
        if spec is None and self.opts.get('auto') and not fn.dem.startswith(('__gnu_cxx',)) and not self.const_loop(fn, h):
            spec = AutoLoop('auto%d' % len(self.autoloops), self)
            spec.taken = key
            self.autoloops.append(spec)
        self.loop_ids[key] = spec
        self.loops_seen.append((short(fn.dem), h, spec.name if spec else 'unrolled'))
        return spec

    def const_loop(self, fn, h):
        if self.opts.get('cut_const'):
            return False
        body = fn.loops[h]
        ph = {i.dst: i for i in self.phis(fn, h)}
        defs = {}
        for b in body:
            for i in fn.blocks[b]:
                if i.dst:
                    defs[i.dst] = i

        def derived(v):
            if v[0] != 'loc':
                return False
            if v[1] in ph:
                i = ph[v[1]]
                return any(x[0] == 'int' for x, pb in i.a['inc'] if pb not in body)
            d = defs.get(v[1])
            if d and d.op in ('add', 'sub') and (d.a['y'][0] == 'int'):
                return derived(d.a['x'])
            if d and d.op in ('sext', 'zext', 'trunc'):
                return derived(d.a['x'])
            return False
        for b in body:
            t = fn.blocks[b][-1]
            if t.op == 'br' and 'c' in t.a and (t.a['t'] not in body or t.a['f'] not in body):
                c = t.a['c']
                d = defs.get(c[1]) if c[0] == 'loc' else None
                if d and d.op == 'icmp' and (d.a['y'][0] == 'int' and derived(d.a['x']) or d.a['x'][0] == 'int' and derived(d.a['y'])):
                    return True
        return False

    def loop_head(self, st, f, h, ph, vals, prev):
        fn = f.fn
        rec = f.loops.get(h)
        if rec is not None and prev in fn.loops[h]:
            # back edge of a cut loop
            if rec.dry is not None:
                rec.dry.append((st, vals))
                raise Kill()
            L = LoopView(self, st, rec, vals, ph, fn)
            spec = rec.spec
            for nm, g in inv_items(spec.inv(L)):
                self.oblig(st, g, 'loop-invariant', site='%s loop %s' % (short(fn.dem), spec.name),
                           label='%s: invariant %s preserved' % (spec.name, nm), hints=L.hints, opt=(spec.name, nm) if spec.auto else None)
            for i, v0, v1 in zip(ph, rec.cur, vals):
                if isinstance(v0, Ptr) and (not isinstance(v1, Ptr) or v1.obj is not v0.obj):
                    raise Unsupported('loop-carried pointer changes object: %s' % i.dst)
            for k, g in rec.head_ghost.items():
                if isinstance(g, (bool, int, str)) and st.ghost.get(k) != g:
                    raise Unsupported('discrete ghost %s differs at the back edge' % k)
            # pointer cells kept object
            for (oid, ri, off), p0 in rec.pcells.items():
                r = st.mem[oid].regs[ri]
                e = r.d.get(off)
                if e is None or not isinstance(e[1], Ptr) or e[1].obj is not p0.obj:
                    raise Unsupported('loop-carried pointer cell changes object')
            if spec.auto:
                m1 = dict(spec.measures(L))
                for k, d0 in rec.measure.items():
                    if k in m1:
                        self.oblig(st, self.dom.ult(m1[k], d0) if self.mode == 'bv' else z3.And(m1[k] < d0, d0 >= 0), 'termination', label='%s: measure %s decreases' % (spec.name, k),
                                   site='%s loop' % short(fn.dem), opt=(spec.name, 'measure', k))
                if not rec.measure and not self.opts.get('no_termination'):
                    self.oblig(st, z3.BoolVal(False), 'termination', label='%s: some measure decreases' % spec.name, site='%s loop' % short(fn.dem))
            elif spec.dec:
                d0, d1 = rec.measure, spec.dec(L)
                if isinstance(d0, tuple):
                    # lexicographic
                    lt = z3.BoolVal(False)
                    for x, y in reversed(list(zip(d0, d1))):
                        lt = z3.Or(self.dom.ult(y, x), z3.And(x == y, lt))
                    self.oblig(st, lt, 'termination', label='%s: measure decreases' % spec.name, site='%s loop' % short(fn.dem), hints=L.hints)
                else:
                    lo = z3.BoolVal(True) if self.mode == 'bv' else d0 >= 0
                    self.oblig(st, z3.And(self.dom.ult(d1, d0), lo), 'termination', label='%s: measure decreases' % spec.name,
                               site='%s loop' % short(fn.dem), hints=L.hints)
            self.loop_fired.setdefault(spec.name, [0, 0])[1] += 1
            raise Kill()
        if rec is not None:
            del f.loops[h]
        spec = self.loop_spec(fn, h)
        if spec is None:
            n = f.visits.get(h, 0) + 1
            f.visits[h] = n
            if n > self.opts.get('unroll', 300):
                raise Structure('loop without invariant in %s (%s)' % (short(fn.dem), h))
            for i, v in zip(ph, vals):
                f.env[i.dst] = v
            f.prev, f.blk, f.ip = prev, h, len(ph)
            return [st]
        return self.cut(st, f, h, ph, vals, prev, spec)

    def cut(self, st, f, h, ph, vals, prev, spec):
        fn = f.fn
        rec = LoopRec()
        rec.spec, rec.init, rec.fn, rec.h, rec.ph = spec, vals, fn, h, ph
        rec.entry = st.fork()
        rec.dry = None
        rec.pcells = {}
        rec.measure = None
        rec.cur = vals
        if spec.setup:
            spec.setup(LoopView(self, st, rec, vals, ph, fn))
            rec.entry = st.fork()
        # modified set by dry run to a fixpoint (an earlier run of the same loop seeds it)
        mods = {w for w in self.modseed.get((fn.name, h), ()) if w[0] == 'ghost' and w[1] in st.ghost or w[0] != 'ghost' and w[1] in st.mem and st.mem[w[1]].lazy is None}
        self.quiet += 1
        try:
            for rnd in range(12):
                s = st.fork()
                outer = st.wlog
                s.wlog = set()
                r2 = LoopRec()
                r2.__dict__.update(rec.__dict__)
                r2.dry = []
                ff = s.frames[-1]
                cur = self.havoc(s, ff, ph, vals, mods, r2, fn)
                r2.cur = cur
                if spec.shape:
                    spec.shape(LoopView(self, s, r2, cur, ph, fn))
                ff.loops[h] = r2
                for i, v in zip(ph, cur):
                    ff.env[i.dst] = v
                ff.prev, ff.blk, ff.ip = prev, h, len(ph)
                depth = len(s.frames)
                oids = set(st.mem)
                self.explore_loop(s, h, depth, fn)
                new = {w for w in s.wlog if w[0] == 'ghost' or w[1] in oids}
                if new <= mods:
                    break
                mods |= new
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.quiet -= 1
        if st.wlog is not None:
            st.wlog |= mods
        rec.mods = mods
        if self.opts.get('seed_mods'):
            self.modseed.setdefault((fn.name, h), set()).update(mods)
        L = LoopView(self, st, rec, vals, ph, fn, entry=True)
        for nm, g in inv_items(spec.inv(L)):
            self.oblig(st, g, 'loop-invariant', site='%s loop %s' % (short(fn.dem), spec.name),
                       label='%s: invariant %s on entry' % (spec.name, nm), hints=L.hints, opt=(spec.name, nm) if spec.auto else None)
        cur = self.havoc(st, f, ph, vals, mods, rec, fn)
        rec.cur = cur
        if spec.shape:
            spec.shape(LoopView(self, st, rec, cur, ph, fn))
        L = LoopView(self, st, rec, cur, ph, fn)
        for nm, g in inv_items(spec.inv(L)):
            st.assume(g)
        if spec.auto:
            rec.measure = dict(spec.measures(L))
        elif spec.dec:
            rec.measure = spec.dec(L)
        rec.head = st.fork()
        rec.head_ghost = dict(st.ghost)
        f.loops[h] = rec
        for i, v in zip(ph, cur):
            f.env[i.dst] = v
        f.prev, f.blk, f.ip = prev, h, len(ph)
        self.loop_fired.setdefault(spec.name, [0, 0])[0] += 1
        st.trail = st.trail + ('loop ' + spec.name,)
        return [st]

    def explore_loop(self, s, h, depth, fn):
        work = [s]
        seen = 0
        while work:
            x = work.pop()
            seen += 1
            if seen > 4000:
                raise Unsupported('loop body too wide')
            try:
                nxt = self.step(x)
            except Kill:
                continue
            for t in nxt:
                if t.done:
                    continue
                if len(t.frames) < depth:
                    continue
                if len(t.frames) == depth and h not in t.frames[-1].loops:
                    continue
                work.append(t)

    def stride_of(self, st, p):
        os = st.mem.get(p.obj.oid)
        if os is None:
            return 1
        if os.lazy:
            return os.lazy[2] or 1
        r = os.regs[self.region(os, p, 1)]
        return r.S if r.kind in ('arr', 'ptrarr', 'volatile') else 1

    def havoc(self, st, f, ph, vals, mods, rec, fn):
        cur = []
        for i, v in zip(ph, vals):
            t = fn.mod.resolve(i.a['t'])
            if t[0] == 'i':
                cur.append(self.fresh(st, i.dst, t[1]))
            elif isinstance(v, Ptr) and v.obj is not None:
                x = self.freshc(i.dst + '_ix', self.dom.ix)
                cur.append(Ptr(v.obj, 0 if self.stride_of(st, v) > 1 else 0, ((x, self.stride_of(st, v)),)))
            elif isinstance(v, Ptr):
                cur.append(Opaque(i.dst))
            else:
                cur.append(Opaque(i.dst))
        for w in sorted(mods, key=str):
            if w[0] == 'ghost':
                g = st.ghost.get(w[1])
                st.ghost[w[1]] = self.havoc_ghost(st, w[1], g)
            elif w[0] == 'arr':
                _, oid, ri, inner = w
                os = st.mem[oid].copy()
                r = os.regs[ri]
                if inner in r.f:
                    fb, a = r.f[inner]
                    a2 = self.freshc('h.' + str(a.decl().name() if z3.is_const(a) else 'arr').split('!')[0], a.sort())
                    f2 = dict(r.f)
                    f2[inner] = (fb, a2)
                    os.regs[ri] = Arr(r.start, r.S, r.n, f2)
                    st.mem[oid] = os
                    if self.mode == 'int':
                        st.fa.append(rngfa(self, a2, fb))
                elif os.lazy is None:
                    pass
            elif w[0] == 'cell':
                _, oid, ri, off, nb = w
                os = st.mem[oid].copy()
                r = os.regs[ri]
                if r.kind != 'cells':
                    continue
                d = dict(r.d)
                for o, (b, v) in list(d.items()):
                    if o < off + nb and off < o + b:
                        if isinstance(v, Ptr) and v.obj is not None:
                            x = self.freshc('cell_ix', self.dom.ix)
                            d[o] = (b, Ptr(v.obj, 0, ((x, self.stride_of(st, v)),)))
                            rec.pcells[(oid, ri, o)] = v
                        elif isinstance(v, (Ptr, Opaque, FnPtr)):
                            d[o] = (b, Opaque('havoc'))
                        else:
                            d[o] = (b, self.fresh(st, 'h.cell', b * 8))
                if r.fill is not None:
                    for o in range(off, off + nb):
                        pass
                os.regs[ri] = Cells(r.start, r.length, d, None if r.fill is not None else r.fill)
                st.mem[oid] = os
        return cur

    def havoc_ghost(self, st, k, g):
        if g is None:
            return None
        if hasattr(g, 'havoc'):
            return g.havoc(self, st, k)
        if z3.is_expr(g):
            v = self.freshc('g.' + str(k), g.sort())
            return v
        if isinstance(g, tuple) and all(z3.is_expr(x) for x in g):
            return tuple(self.freshc('g.' + str(k), x.sort()) for x in g)
        if g is None or isinstance(g, (bool, int, str)):
            return g            # discrete ghost state: must be the same again at the back edge (checked there)
        raise Unsupported('ghost %s modified in loop' % (k,))

    # ---------------------------------------------------------------- calls
    def i_call(self, st, f, ins):
        return self.call(st, f, ins)

    i_invoke = i_call

    def call(self, st, f, ins):
        a = ins.a
        m = f.fn.mod
        fv = a['f']
        if fv[0] == 'glob':
            name = fv[1]
            g = m._gl.get(name)
            if g and ' alias ' in g:
                name = re.findall(r'@[-\w$.]+', g)[-1][1:]
        elif fv[0] == 'loc':
            x = st.frames[-1].env[fv[1]]
            if not isinstance(x, FnPtr):
                h = self.opts.get('indirect')
                if h:
                    name = h(self, st, x, ins)
                else:
                    raise Unsupported('indirect call through %r' % x)
            else:
                name = x.name
        else:
            raise Unsupported('asm')
        args = []
        for x in a['args']:
            v = self.val(st, x[0], x[1], m) if x[0] != ('metadata',) else None
            if len(x) == 3:      # byval: private copy
                o = self.alloca(st, 'byval', x[2], m)
                self.memcpy(st, Ptr(o), v, self.dom.const(m.size(x[2]), 64))
                v = Ptr(o)
            args.append(v)
        if name.startswith('llvm.'):
            r = self.intrinsic(st, f, ins, name, args)
            if r is not NotImplemented:
                if ins.dst is not None:
                    f.env[ins.dst] = r
                if ins.op == 'invoke':
                    return self.goto(st, a['to'])
                return None
        dem = m.dem.get(name, name)
        c = Call()
        c.fn, c.name, c.args, c.ret, c.ins = dem, name, args, m.resolve(a['t']), ins
        c.types = [m.resolve(x[0]) for x in a['args']]
        h = self.handler(dem, name)
        if h is not None:
            self.called.add((dem, getattr(h, 'trust', h.__name__)))
            res = h(self, st, c)
            if res is not NotImplemented:
                return self.after_call(st, f, ins, res)
        fn = self.find_fn(name)
        if fn is None:
            raise Unsupported('external function %s' % dem)
        if len(st.frames) > 60:
            raise Unsupported('call depth (recursion in %s)' % dem)
        fn.parse()
        self.executed.add(fn.dem)
        env = {}
        for (t, n, at), v in zip(fn.params, args):
            env[n] = v
        st.frames.append(Frame(fn, env, ins))
        return [st]

    def after_call(self, st, f, ins, res):
        if not isinstance(res, list):
            res = [(st, res)]
        outs = []
        for r in res:
            try:
                if isinstance(r, Throw):
                    s = r.st
                    s.exc = (r.ti, r.obj or Ptr(self.newobj(s, 'exc', [Cells(0, None)])))
                    outs += self.unwind(s)
                    continue
                s, v = r
                ff = s.frames[-1]
                if ins.dst is not None:
                    ff.env[ins.dst] = v
                if ins.op == 'invoke':
                    outs += self.goto(s, ins.a['to'])
                else:
                    ff.ip += 1
                    outs.append(s)
            except Kill:
                pass
        return outs

    def handler(self, dem, name):
        for pat, h in self.handlers:
            if isinstance(pat, str):
                if pat == dem or pat == name:
                    return h
            elif pat.search(dem):
                return h
        return None

    def i_ret(self, st, f, ins):
        v = self.v(st, f, (ins.a['t'], ins.a['x'])) if ins.a['x'] is not None else None
        fr = st.frames.pop()
        for oid in fr.allocas:
            if oid in st.mem and self.opts.get('kill_allocas', True):
                os = st.mem[oid].copy()
                os.alive = False
                st.mem[oid] = os
        if not st.frames:
            st.done = 'ret'
            st.ret = v
            return [st]
        f = st.frames[-1]
        c = fr.call
        if fr.tag:
            fr.tag(self, st, v)
        if c.dst is not None:
            f.env[c.dst] = v
        if c.op == 'invoke':
            return self.goto(st, c.a['to'])
        f.ip += 1
        return [st]

    # ---------------------------------------------------------------- exceptions
    def unwind(self, st):
        """st.exc is set; current top frame contains the throwing call"""
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            if ins.op == 'invoke':
                return self.goto(st, ins.a['unw'])
            fr = st.frames.pop()
            for oid in fr.allocas:
                if oid in st.mem:
                    os = st.mem[oid].copy()
                    os.alive = False
                    st.mem[oid] = os
        st.done = 'exc'
        return [st]

    def ti_name(self, n):
        if n.startswith('_ZTI'):
            d = demcache(n)
            return d.replace('typeinfo for ', '')
        return n

    def bases(self, ti):
        """public base classes of a class name"""
        if ti in STD_BASES:
            return STD_BASES[ti]
        for m in self.mods:
            for n in m._gl:
                if n.startswith('_ZTI') and self.ti_name(n) == ti:
                    g = m.gvar(n)
                    if not g or not g[1] or g[1][0] != 'agg':
                        continue
                    els = g[1][1]
                    out = []
                    vt = str(els[0])
                    if '__si_class_type_info' in vt:
                        out.append(self.ti_name(els[2][1][1]))
                    elif '__vmi_class_type_info' in vt:
                        nb = els[3][1][1]
                        for k in range(nb):
                            b, fl = els[4 + 2 * k], els[5 + 2 * k]
                            if fl[1][1] & 2:
                                out.append(self.ti_name(b[1][1]))
                    return out
        return []

    def is_a(self, ti, base):
        seen, work = set(), [ti]
        while work:
            x = work.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            work += self.bases(x)
        return False

    def i_landingpad(self, st, f, ins):
        ti, obj = st.exc
        sel = None
        for kind, (t, v) in ins.a['cl']:
            if kind == 'filter':
                continue
            if v[0] == 'null':
                sel = ('catchall', 1)
                break
            n = self.ti_name(v[1])
            if self.is_a(ti, n):
                sel = (n, self.tid(n))
                break
        if sel is None and not ins.a['cleanup']:
            # not caught here
            f = st.frames.pop()
            if not st.frames:
                st.done = 'exc'
                return [st]
            return self.unwind(st)
        f.env[ins.dst] = [obj, self.dom.const(sel[1] if sel else 0, 32)]
        return None

    _tids = {}

    def tid(self, n):
        return self._tids.setdefault(n, len(self._tids) + 2)

    def i_resume(self, st, f, ins):
        fr = st.frames.pop()
        if not st.frames:
            st.done = 'exc'
            return [st]
        return self.unwind(st)

    # ---------------------------------------------------------------- intrinsics
    def intrinsic(self, st, f, ins, name, args):
        m = f.fn.mod
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.eh.typeid.for'):
            n = ins.a['args'][0][1]
            return self.dom.const(self.tid(self.ti_name(n[1])), 32)
        if name.startswith('llvm.assume') or name.startswith(('llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.donothing', 'llvm.va_', 'llvm.invariant', 'llvm.launder')):
            return args[0] if 'launder' in name else Opaque('i')
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.oblig(st, z3.BoolVal(False), 'no-trap')
            raise Kill()
        mm = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', name)
        if mm:
            w = int(mm.group(2))
            x, y = self.intv(st, args[0], w), self.intv(st, args[1], w)
            op = mm.group(1)
            if op == 'umul':
                ov = self.dom.umul_ov(x, y, w)
                if self.prove(st, z3.Not(ov)):
                    if self.mode == 'int':
                        return [z3.simplify(x * y), z3.BoolVal(False)]
                    return [x * y, z3.BoolVal(False)]
                return [self.dom.bin(self, st, 'mul', x, y, w, set(), None), ov]
            if op == 'uadd':
                r = self.dom.bin(self, st, 'add', x, y, w, set(), None)
                return [r, self.dom.ult(r, x)]
            raise Unsupported(name)
        mm = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if mm:
            w = int(mm.group(2))
            x, y = self.intv(st, args[0], w), self.intv(st, args[1], w)
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[mm.group(1)]
            return z3.If(self.dom.icmp(self, st, p, x, y, w), x, y)
        mm = re.match(r'llvm\.abs\.i(\d+)', name)
        if mm and self.mode == 'bv':
            x = args[0]
            return z3.If(x < 0, -x, x)
        mm = re.match(r'llvm\.(ctlz|cttz)\.i(\d+)', name)
        if mm and self.mode == 'bv':
            w = int(mm.group(2))
            x = args[0]
            r = z3.BitVecVal(w, w)
            rng = range(w) if mm.group(1) == 'ctlz' else range(w - 1, -1, -1)
            for b in rng:
                r = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(w - 1 - b if mm.group(1) == 'ctlz' else b, w), r)
            return r
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.ctpop') and self.mode == 'bv':
            raise Unsupported(name)
        if re.match(r'llvm\.\w+\.f(32|64)', name):
            return Opaque('fp')
        return NotImplemented


class Kill(Exception):
    pass


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
        'fptrunc', 'addrspacecast'}


def _has_bigarr(t, m):
    t = m.resolve(t)
    if t[0] == 'arr':
        return t[1] > 64 and m.resolve(t[2])[0] == 'i'
    if t[0] == 'st':
        return any(_has_bigarr(x, m) for x in t[1])
    return False


def rngfa(eng, a, nb):
    return forall(eng.dom.ix, lambda k: z3.And(z3.Select(a, k) >= 0, z3.Select(a, k) < (1 << (nb * 8))), 'range')


def inv_items(x):
    if isinstance(x, dict):
        return list(x.items())
    return [(str(i), g) for i, g in enumerate(x)]


def short(dem):
    s = re.sub(r'\(.*$', '', dem)
    s = re.sub(r'<.*>', '<>', s)
    return s[-70:]


_dc = {}


def demcache(n):
    if n not in _dc:
        from ir import demangle
        _dc[n] = demangle([n])[0]
    return _dc[n]


def cstr(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('latin-1', 'replace')
            i += 1
    return bytes(out)


class Loop:
    """loop specification.  inv(L) -> dict name -> Bool|Forall ; dec(L) -> measure"""

    def __init__(self, name, inv, roles=None, dec=None, fn=None, setup=None, shape=None, header=None):
        self.name, self.inv, self.roles, self.dec, self.fn = name, inv, roles or {}, dec, fn
        self.setup, self.shape, self.header = setup, shape, header
        self.taken = None
        self.auto = False


class AutoLoop:
    """invariants from templates over every loop variable; those that are not inductive are dropped and the unit is run again (Houdini)"""
    auto = True
    roles = {}
    setup = shape = dec = header = None
    fn = None

    def __init__(self, name, eng):
        self.name, self.eng = name, eng
        self.taken = None

    def inv(self, L):
        e = self.eng
        out = {}

        def put(nm, g):
            if g is not None and (self.name, nm) not in e.dropped:
                out[nm] = g
        vs = L.vars()
        tm = e.opts['auto']
        for nm, v, v0, w in vs:
            if e.mode == 'bv':
                put('%s>=init' % nm, z3.UGE(v, v0))
                put('%s<=init' % nm, z3.ULE(v, v0))
                put('%s=init' % nm, v == v0)
                if w < 64:
                    put('%s small' % nm, z3.ULE(v, (1 << (w - 1)) - 1))
            else:
                put('%s>=init' % nm, v >= v0)
                put('%s<=init' % nm, v <= v0)
                put('%s=init' % nm, v == v0)
            for off in e.opts.get('auto_offs', (0, 1, -1)):
                x = v if not off else v + off
                for k, g in inv_items(tm(L, x)):
                    put('%s%s|%s' % (nm, '%+d' % off if off else '', k), g)
        for i, (n1, a, a0, w1) in enumerate(vs):
            for n2, b, b0, w2 in vs[:i]:
                put('%s-%s' % (n1, n2), a - a0 == b - b0)
                put('%s+%s' % (n1, n2), a - a0 == b0 - b)
        for k, g in inv_items(e.opts['auto0'](L) if e.opts.get('auto0') else {}):
            put(k, g)
        return out

    def measures(self, L):
        e = self.eng
        if e.opts.get('no_termination'):
            return
        vs = L.vars()
        for nm, v, v0, w in vs:
            for k, x in (('up %s' % nm, e.opts['auto_hi'] - v if e.opts.get('auto_hi') is not None else None), ('down %s' % nm, v)):
                if x is not None and (self.name, 'measure', k) not in e.dropped:
                    yield k, x
        if e.opts.get('auto_meas'):
            for k, x in e.opts['auto_meas'](L).items():
                if (self.name, 'measure', k) not in e.dropped:
                    yield k, x


class LoopView:
    def __init__(self, eng, st, rec, vals, ph, fn, entry=False):
        self.eng, self.st, self.rec, self.vals, self.ph, self.fn = eng, st, rec, vals, ph, fn
        self.entry = rec.entry
        self.hints = []
        self.u = eng.opts.get('u')
        self.snap = State.__new__(State)
        self.snap.mem = dict(st.mem)

    def vars(self):
        """every integer or pointer loop variable as an index term: (name, value, initial value, width)"""
        out = []
        self.off = 0
        for j, i in enumerate(self.ph):
            t = self.fn.mod.resolve(i.a['t'])
            if t[0] == 'i' and t[1] in (8, 16, 32, 64) or isinstance(self.vals[j], Ptr) and self.vals[j].obj is not None and isinstance(self.rec.init[j], Ptr):
                w = t[1] if t[0] == 'i' else 64
                if isinstance(self.vals[j], Ptr) and t[0] != 'i':
                    S = self.eng.stride_of(self.st, self.vals[j])
                    if S <= 0:
                        continue
                    f = lambda v: self.eng.lin_div(LinOff(v.c, v.ix), S)
                else:
                    f = lambda v: z3.ZeroExt(64 - w, self.eng.intv(self.st, v)) if self.eng.mode == 'bv' and w < 64 else self.eng.intv(self.st, v)
                try:
                    out.append((i.dst, f(self.vals[j]), f(self.rec.init[j]), w))
                except (Unsupported, z3.Z3Exception, AttributeError):
                    continue
        if self.eng.opts.get('cell_vars'):
            # loop variables that live in memory: integers in stack slots written by the loop
            for w in sorted(getattr(self.rec, 'mods', ()) or (), key=str):
                if w[0] != 'cell' or w[1] not in self.st.mem or w[1] not in self.rec.entry.mem:
                    continue
                _, oid, ri, off, nb = w
                obj = self.eng.objs.get(oid)
                if obj is None or obj.kind != 'stack':
                    continue
                val = []
                for st in (self.st, self.rec.entry):
                    r = st.mem[oid].regs[ri]
                    x = r.d.get(off) if r.kind == 'cells' else None
                    v = x[1] if x and x[0] == nb else None
                    if isinstance(v, Ptr) and v.obj is not None and self.eng.opts.get('cell_ptrs'):
                        S = self.eng.stride_of(self.st, v)
                        if S > 0:
                            v = self.eng.lin_div(LinOff(v.c, v.ix), S)
                    if not (z3.is_expr(v) and (z3.is_bv(v) or z3.is_int(v))):
                        break
                    val.append(z3.ZeroExt(64 - v.size(), v) if z3.is_bv(v) and v.size() < 64 else v)
                if len(val) == 2:
                    out.append(('%s@%d' % (obj.name, off), val[0], val[1], nb * 8))
        return out

    def outer(self):
        """integer variables of the enclosing cut loops, as at their current iteration: (name, value)"""
        out = []
        for fr in self.st.frames:
            for lk, rec in fr.loops.items():
                if rec.h == self.rec.h and rec.fn is self.rec.fn or rec.cur is None:
                    continue
                for i, v in zip(rec.ph, rec.cur):
                    if z3.is_expr(v) and (z3.is_bv(v) or z3.is_int(v)):
                        if z3.is_bv(v) and v.size() < 64:
                            v = z3.ZeroExt(64 - v.size(), v)
                        out.append((i.dst, v))
        return out

    def cands(self, role):
        w = self.rec.spec.roles[role]
        out = []
        for j, i in enumerate(self.ph):
            t = self.fn.mod.resolve(i.a['t'])
            if w == 'p' and t[0] == 'ptr' or t[0] == 'i' and t[1] == w:
                out.append(j)
        if not out and isinstance(w, int) and w < 64:
            for j, i in enumerate(self.ph):
                t = self.fn.mod.resolve(i.a['t'])
                if t[0] == 'i' and t[1] != 1:
                    out.append(j)
        stem = role.split('_')[0]
        out.sort(key=lambda j: 0 if re.split(r'[._]', self.ph[j].dst)[0] == stem else 1)
        return out

    def _pick(self, role):
        sp = self.rec.spec
        cs = self.cands(role)
        if not cs:
            raise Structure('no loop variable for %s in %s' % (role, sp.name))
        key = (sp.name, role)
        # order: every variable at offset 0, then shifted by one either way
        self.eng.bind_cands[key] = len(cs) * 3
        k = self.eng.binding.get(key, 0)
        if k >= len(cs) * 3:
            raise Structure('binding')
        self.off = (0, 1, -1)[k // len(cs)]
        return cs[k % len(cs)]

    def __getitem__(self, role):
        j = self._pick(role)
        return self._conv(self.vals[j], role, j)

    def init(self, role):
        j = self._pick(role)
        return self._conv(self.rec.init[j], role, j)

    def _conv(self, v, role, j):
        w = self.rec.spec.roles[role]
        if isinstance(v, Ptr):
            S = self.eng.stride_of(self.st, v)
            t = self.eng.lin_div(LinOff(v.c, v.ix), S)
            return t
        v = self.eng.intv(self.st, v)
        t = self.fn.mod.resolve(self.ph[j].a['t'])
        if isinstance(w, int) and t[0] == 'i' and t[1] != w and self.eng.mode == 'bv':
            v = z3.ZeroExt(w - t[1], v) if t[1] < w else z3.Extract(w - 1, 0, v)
        if self.off:
            v = z3.simplify(v + self.off)
        return v

    def arr(self, obj, inner=0, ri=None):
        return self.eng.arr(self.snap, obj, inner, ri)

    def arr0(self, obj, inner=0, ri=None):
        return self.eng.arr(self.rec.entry, obj, inner, ri)

    def hint(self, *ts):
        self.hints += ts
