from core import *
from eng import PtrArr, Obj
P = Property('C12', 'Word stack is last in, first out')
P.modules = {'s': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/utils/stack.h>
using S = HZ_Stack<uint32_t>;
using B = S::HZ_Buffer;
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(S, buffer); o[1] = offsetof(S, bufsize); o[2] = offsetof(S, index); o[3] = sizeof(S);
  o[4] = offsetof(B, data) + offsetof(rainman::ptr<uint32_t>, p); o[5] = offsetof(B, data) + offsetof(rainman::ptr<uint32_t>, n); o[6] = offsetof(B, next); o[7] = offsetof(B, prev); o[8] = sizeof(B); }
void d_new(S *s) { new(s) S(); }
void d_push(S *s, uint32_t x) { s->push(x); }
void d_pop(S *s) { s->pop(); }
uint32_t d_top(S *s) { return s->top(); }
uint64_t d_size(S *s) { return s->size(); }
bool d_empty(S *s) { return s->empty(); }
}
''', flags=['-fno-access-control'])}
Sel = z3.Select
NAMES = ['buffer', 'bufsize', 'index', 'sizeof', 'p', 'n', 'next', 'prev', 'node']


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


def capacity(c):
    """the buffer size the constructor sets"""
    e2 = Engine(c.eng.mods, 'bv', 'cap', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, c.o['sizeof'])], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_new'), [Ptr(o)])
    t = e2.run(st)[0]
    return e2.dom.cval(e2.peek(t, Ptr(o, c.o['bufsize']), 64))


def stack(c, empty):
    """representation invariant: full buffers 0 .. m-1 linked by prev below the current one, which holds 1 .. capacity elements"""
    c.o = o = locs(c)
    c.B = B = capacity(c)
    c.x = c.sym('x', 32)
    if empty:
        c.m, c.idx = c.const(0), c.const(0)
        c.s = c.cells('stack', o['sizeof'], {o['buffer']: ('p', NULL), o['bufsize']: (64, B), o['index']: (64, 0)})
        return
    c.m, c.idx = c.sym('m', 64), c.sym('index', 64)
    c.assume(1 <= c.idx, c.idx <= B, c.m < 1 << 40)
    c.deep = c.array('deep', 4, c.m * B)
    c.data = c.array('top', 4, c.const(B))
    c.nodes = nodes = c.eng.newobj(c.st, 'nodes', [])
    nodes.nullable = o['node']

    def field(eng, st, i, inner):
        if inner == o['p']:
            return Ptr(c.deep, 0, ((i * B, 4),))
        if inner == o['n']:
            return eng.dom.const(B, 64)
        if inner == o['prev']:
            return Ptr(nodes, -o['node'], ((i, o['node']),))
        raise Unsupported('field %d of a lower buffer' % inner)
    os = c.st.mem[nodes.oid].copy()
    os.regs = [PtrArr(0, c.m, field, o['node'])]
    c.st.mem[nodes.oid] = os
    c.below = Ptr(nodes, -o['node'], ((c.m, o['node']),))          # null when m = 0
    c.node = c.cells('current', o['node'], {o['p']: ('p', Ptr(c.data)), o['n']: (64, B), o['next']: ('p', NULL), o['prev']: ('p', c.below)})
    c.s = c.cells('stack', o['sizeof'], {o['buffer']: ('p', Ptr(c.node)), o['bufsize']: (64, B), o['index']: (64, c.idx)})
    c.T, c.D = c.arr(c.data), c.arr(c.deep)


def index(c, t):
    return c.peek(t, Ptr(c.s, c.o['index']), 64)


def cur(c, t):
    return c.eng.peekp(t, Ptr(c.s, c.o['buffer']))


def same_elements(c, t, n):
    """elements below n of the current buffer, and everything deeper, are what they were; the link down is kept"""
    c.ensure(t, 'elements below are kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < n), Sel(c.arr(c.data, st=t), k) == Sel(c.T, k))))
    c.ensure(t, 'elements in lower buffers are kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < c.m * c.B), Sel(c.arr(c.deep, st=t), k) == Sel(c.D, k))))
    pv = c.eng.peekp(t, Ptr(c.node, c.o['prev']))
    c.ensure(t, 'link to the lower buffer kept', c.eng.pcmp(t, 'eq', pv, c.below))


def normal(c, t):
    c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
    c.ensure(t, 'capacity kept', c.peek(t, Ptr(c.s, c.o['bufsize']), 64) == c.B)
    return t.done == 'ret'


def data_of(c, t, node):
    return c.eng.peekp(t, node.add(c.o['p']))


def is_null(c, t, p):
    return c.eng.pcmp(t, 'eq', p, NULL)


@P.unit('construction', 'd_new', 's', mode='int')
def new(c):
    c.o = o = locs(c)
    c.s = c.cells('stack', o['sizeof'])
    c.args = [Ptr(c.s)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'holds nothing', index(c, t) == 0)
        c.ensure(t, 'no buffer', is_null(c, t, cur(c, t)))
        c.ensure(t, 'capacity positive', c.peek(t, Ptr(c.s, o['bufsize']), 64) >= 1)


@P.unit('push onto an empty stack', 'd_push', 's', mode='int')
def push0(c):
    stack(c, True)
    c.args = [Ptr(c.s), c.x]
    yield
    for t in c.terminals:
        if not normal(c, t):
            continue
        b = cur(c, t)
        c.ensure(t, 'one element', index(c, t) == 1)
        c.ensure(t, 'a buffer', z3.BoolVal(b.obj is not None and not b.ix and b.c == 0))
        c.ensure(t, 'the element is x', c.eng.load(t, data_of(c, t, b), ('i', 32), c.eng.mods[0]) == c.x)
        c.ensure(t, 'nothing below', is_null(c, t, c.eng.peekp(t, b.add(c.o['prev']))))


@P.unit('push', 'd_push', 's', mode='int')
def push(c):
    stack(c, False)
    c.args = [Ptr(c.s), c.x]
    yield
    for t in c.terminals:
        if not normal(c, t):
            continue
        b = cur(c, t)
        same_elements(c, t, c.idx)
        if b.obj is c.node:
            c.ensure(t, 'one more element', index(c, t) == c.idx + 1)
            c.ensure(t, 'within the buffer', index(c, t) <= c.B)
            c.ensure(t, 'x on top', Sel(c.arr(c.data, st=t), index(c, t) - 1) == c.x)
        else:
            c.ensure(t, 'the full buffer went below', z3.And(c.idx == c.B, c.eng.pcmp(t, 'eq', c.eng.peekp(t, b.add(c.o['prev'])), Ptr(c.node))))
            c.ensure(t, 'one element in the new buffer', index(c, t) == 1)
            c.ensure(t, 'new buffer is fresh', z3.BoolVal(b.obj not in (c.node, c.nodes, c.s) and data_of(c, t, b).obj not in (c.data, c.deep)))
            c.ensure(t, 'x on top', c.eng.load(t, data_of(c, t, b), ('i', 32), c.eng.mods[0]) == c.x)


@P.unit('pop', 'd_pop', 's', mode='int')
def pop(c):
    stack(c, False)
    c.args = [Ptr(c.s)]
    yield
    for t in c.terminals:
        if not normal(c, t):
            continue
        b = cur(c, t)
        if b.obj is c.node:
            same_elements(c, t, index(c, t))
            c.ensure(t, 'one element fewer', z3.And(index(c, t) == c.idx - 1, index(c, t) >= 1))
            c.ensure(t, 'current buffer alive', z3.BoolVal(t.mem[c.node.oid].alive))
        else:
            c.ensure(t, 'only the last element leaves the buffer', c.idx == 1)
            c.ensure(t, 'the lower buffer becomes current', c.eng.pcmp(t, 'eq', b, c.below))
            c.ensure(t, 'its elements are kept', c.fa(lambda k: z3.Implies(z3.And(0 <= k, k < c.m * c.B), Sel(c.arr(c.deep, st=t), k) == Sel(c.D, k))))
            c.ensure(t, 'full when there is one, empty otherwise', index(c, t) == z3.If(c.m == 0, 0, c.B))
            c.ensure(t, 'emptied buffer released', z3.BoolVal(not t.mem[c.node.oid].alive))


@P.unit('pop of an empty stack', 'd_pop', 's', mode='int')
def pop0(c):
    stack(c, True)
    c.args = [Ptr(c.s)]
    yield
    for t in c.terminals:
        if normal(c, t):
            c.ensure(t, 'still empty', z3.And(index(c, t) == 0, is_null(c, t, cur(c, t))))


@P.unit('top', 'd_top', 's', mode='int')
def top(c):
    stack(c, False)
    c.args = [Ptr(c.s)]
    yield
    for t in c.terminals:
        if normal(c, t):
            c.ensure(t, 'the element pushed last', t.ret == Sel(c.T, c.idx - 1))
            c.ensure(t, 'nothing moved', z3.And(index(c, t) == c.idx, c.eng.pcmp(t, 'eq', cur(c, t), Ptr(c.node))))
            same_elements(c, t, c.idx)


@P.unit('top after the current buffer was emptied', 'd_top', 's', mode='int')
def top2(c):
    stack(c, False)
    c.assume(c.m >= 1)
    c.put(Ptr(c.s, c.o['buffer']), 'p', c.below)
    c.put(Ptr(c.s, c.o['index']), 64, c.B)
    c.args = [Ptr(c.s)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the last element of the lower buffer', t.ret == Sel(c.D, c.m * c.B - 1))


def size_unit(empty):
    @P.unit('size%s' % (' of an empty stack' if empty else ''), 'd_size', 's', mode='int')
    def size(c):
        stack(c, empty)
        c.args = [Ptr(c.s)]
        if not empty:
            def t(L, v):
                r = {'node in range': z3.And(-1 <= v, v < c.m)}
                for nm, w, _, _ in L.vars():
                    r['counted|%s' % nm] = v == c.idx + (c.m - 1 - w) * c.B
                return r
            c.auto(t, hi=c.m)
        yield
        for t in c.terminals:
            if normal(c, t):
                c.ensure(t, 'elements held', t.ret == c.idx + c.m * c.B)
                c.ensure(t, 'nothing moved', index(c, t) == c.idx)


size_unit(False)
size_unit(True)


def empty_unit(empty):
    @P.unit('empty() on %s stack' % ('an empty' if empty else 'a non-empty'), 'd_empty', 's', mode='int')
    def e(c):
        stack(c, empty)
        c.args = [Ptr(c.s)]
        yield
        for t in c.terminals:
            if normal(c, t):
                c.ensure(t, 'answer', c.eng.dom.tobool(t.ret) == empty if not z3.is_bool(t.ret) else t.ret == empty)


empty_unit(False)
empty_unit(True)
P.native = dict(src='c12.cpp', secs=3, tsecs=60)
P.bounded = ['destruction releases every buffer exactly once (address sanitizer, sampled histories)']
