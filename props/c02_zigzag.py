from core import *
P = Property('C02', 'ZigZag order visits every cell of the grid exactly once')
DRV = r'''
#include <hzip_core/preprocessor/zigzag.h>
using Z = hztrans::ZigZagTransformer;
using It = Z::const_iterator;
extern "C" {
void d_next(Z::zigzag_pair *p, uint32_t w, uint32_t h) { p->next(w, h); }
void d_begin(uint32_t w, uint32_t h, It *o) { Z z(w, h); *o = z.begin(); }
void d_end(uint32_t w, uint32_t h, It *o) { Z z(w, h); *o = z.end(); }
void d_pre(It *i, It *o) { *o = ++*i; }
void d_post(It *i, It *o) { *o = (*i)++; }
void d_deref(It *i, It *o) { *o = **i; }
bool d_eq(It *i, It *o) { return *i == *o; }
bool d_ne(It *i, It *o) { return *i != *o; }
void d_loc(It *i, uint64_t *o) { o[0] = (char*)&i->x - (char*)i; o[1] = (char*)&i->y - (char*)i; o[2] = (char*)&i->_val.x - (char*)i; o[3] = (char*)&i->_val.y - (char*)i;
  o[4] = (char*)&i->width - (char*)i; o[5] = (char*)&i->height - (char*)i; }
}
'''
P.modules = {'z': dict(text=DRV, flags=['-fno-access-control'])}
ULT, ULE = z3.ULT, z3.ULE
W = 40


def up(x):
    return z3.ZeroExt(W - 32, x)


# the specification: diagonals in increasing x+y; even diagonals run with x growing, odd ones with y growing
def S(x, y):
    return up(x) + up(y)


def pos(x, y):
    return z3.If(z3.Extract(0, 0, S(x, y)) == 0, up(x), up(y))


def before(a, b):
    return z3.Or(ULT(S(*a), S(*b)), z3.And(S(*a) == S(*b), ULT(pos(*a), pos(*b))))


def ingrid(a, w, h):
    return z3.And(ULT(a[0], w), ULT(a[1], h))


def succ_post(cur, nxt, w, h, other):
    """nxt is the immediate successor of cur in the diagonal order, or (w,h) after the last cell"""
    last = z3.And(cur[0] == w - 1, cur[1] == h - 1)
    return {
        'past the last cell is the end marker': z3.Implies(last, z3.And(nxt[0] == w, nxt[1] == h)),
        'stays inside the grid': z3.Implies(z3.Not(last), ingrid(nxt, w, h)),
        'strictly later in diagonal order': z3.Implies(z3.Not(last), before(cur, nxt)),
        'no cell is skipped': z3.Implies(z3.And(z3.Not(last), ingrid(other, w, h)), z3.Not(z3.And(before(cur, other), before(other, nxt)))),
        'nothing follows the last cell': z3.Implies(z3.And(last, ingrid(other, w, h)), z3.Not(before(cur, other))),
    }


@P.unit('next', 'd_next', 'z')
def u_next(c):
    w, h, x, y = (c.sym(n, 32) for n in ('w', 'h', 'x', 'y'))
    a, b = c.sym('other_x', 32), c.sym('other_y', 32)
    c.assume(ingrid((x, y), w, h))
    p = c.cells('pair', 8, {0: (32, x), 4: (32, y)})
    c.args = [Ptr(p), w, h]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        nx, ny = c.peek(t, Ptr(p), 32), c.peek(t, Ptr(p, 4), 32)
        for k, v in succ_post((x, y), (nx, ny), w, h, (a, b)).items():
            c.ensure(t, k, v)


NAMES = ('x', 'y', 'vx', 'vy', 'w', 'h')


def offs(c):
    """member offsets are read off the compiled code, not assumed"""
    if not hasattr(c, '_offs'):
        e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
        st = State()
        it = e2.newobj(st, 'it', [Cells(0, 64)], 'heap')
        o = e2.newobj(st, 'o', [Cells(0, 48)], 'heap')
        e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(it), Ptr(o)])
        t = e2.run(st)[0]
        c._offs = {n: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, n in enumerate(NAMES)}
    return c._offs


def iterator(c, name, vals):
    o = offs(c)
    return c.cells(name, max(o.values()) + 4, {o[k]: (32, v) for k, v in vals.items()})


def read(c, t, it):
    return {k: c.peek(t, Ptr(it, v), 32) for k, v in offs(c).items()}


def out(c):
    return c.cells('out', max(offs(c).values()) + 4, {v: (32, c.sym('junk%d' % v, 32)) for v in offs(c).values()})


@P.unit('begin', 'd_begin', 'z')
def u_begin(c):
    w, h = c.sym('w', 32), c.sym('h', 32)
    o = out(c)
    c.args = [w, h, Ptr(o)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        r = read(c, t, o)
        empty = z3.Or(w == 0, h == 0)
        c.ensure(t, 'starts at the first cell, or at the end of an empty grid', z3.And(r['vx'] == z3.If(empty, w, 0), r['vy'] == z3.If(empty, h, 0)))
        c.ensure(t, 'reported coordinates are the first cell', z3.Implies(z3.Not(empty), z3.And(r['x'] == 0, r['y'] == 0)))
        c.ensure(t, 'carries the grid size', z3.And(r['w'] == w, r['h'] == h))


@P.unit('end', 'd_end', 'z')
def u_end(c):
    w, h = c.sym('w', 32), c.sym('h', 32)
    o = out(c)
    c.args = [w, h, Ptr(o)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        r = read(c, t, o)
        c.ensure(t, 'end marker', z3.And(r['vx'] == w, r['vy'] == h))


def step_unit(post):
    def body(c):
        w, h, x, y = (c.sym(n, 32) for n in ('w', 'h', 'x', 'y'))
        a, b = c.sym('other_x', 32), c.sym('other_y', 32)
        c.assume(ingrid((x, y), w, h))
        it = iterator(c, 'it', dict(x=x, y=y, vx=x, vy=y, w=w, h=h))
        o = out(c)
        c.args = [Ptr(it), Ptr(o)]
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            n, r = read(c, t, it), read(c, t, o)
            for k, v in succ_post((x, y), (n['vx'], n['vy']), w, h, (a, b)).items():
                c.ensure(t, k, v)
            c.ensure(t, 'reported coordinates follow', z3.And(n['x'] == n['vx'], n['y'] == n['vy']))
            c.ensure(t, 'grid size kept', z3.And(n['w'] == w, n['h'] == h))
            if post:
                c.ensure(t, 'yields the old position', z3.And(r['x'] == x, r['y'] == y, r['vx'] == x, r['vy'] == y, r['w'] == w, r['h'] == h))
            else:
                c.ensure(t, 'yields the new position', z3.And(*[r[k] == n[k] for k in NAMES]))
    return body


P.unit('pre-increment', 'd_pre', 'z')(step_unit(False))
P.unit('post-increment', 'd_post', 'z')(step_unit(True))


@P.unit('dereference', 'd_deref', 'z')
def u_deref(c):
    v = {k: c.sym(k, 32) for k in NAMES}
    it = iterator(c, 'it', v)
    o = out(c)
    c.args = [Ptr(it), Ptr(o)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        r, n = read(c, t, o), read(c, t, it)
        c.ensure(t, 'yields the current position', z3.And(*[r[k] == v[k] for k in NAMES]))
        c.ensure(t, 'iterator unchanged', z3.And(*[n[k] == v[k] for k in NAMES]))


def cmp_unit(eq):
    def body(c):
        v = {k: c.sym('a' + k, 32) for k in NAMES}
        u = {k: c.sym('b' + k, 32) for k in NAMES}
        i1, i2 = iterator(c, 'i1', v), iterator(c, 'i2', u)
        c.args = [Ptr(i1), Ptr(i2)]
        yield
        for t in c.terminals:
            same = z3.And(v['vx'] == u['vx'], v['vy'] == u['vy'])
            c.ensure(t, 'compares positions', t.ret == (same if eq else z3.Not(same)))
    return body


P.unit('equality', 'd_eq', 'z')(cmp_unit(True))
P.unit('inequality', 'd_ne', 'z')(cmp_unit(False))


@P.lemma_unit('traversal')
def lemma(c):
    """from the contracts of begin/next/end: induction over the sequence of positions"""
    w, h, x, y, nx, ny, a, b, d, e = z3.BitVecs('w h x y nx ny a b d e', 32)
    z = z3.BitVecVal(0, 32)
    c.lemma('order is injective on cells', z3.And(a == d, b == e), z3.Not(before((a, b), (d, e))), z3.Not(before((d, e), (a, b))))
    c.lemma('no cell precedes the first', z3.Not(before((a, b), (z, z))), ingrid((a, b), w, h))
    # after step i exactly the cells up to the current one were visited; a step adds exactly the next one
    post = succ_post((x, y), (nx, ny), w, h, (a, b))
    c.lemma('step visits exactly one new cell', z3.Not(before((nx, ny), (a, b))) == z3.Or(z3.Not(before((x, y), (a, b))), z3.And(a == nx, b == ny)),
            ingrid((x, y), w, h), z3.Not(z3.And(x == w - 1, y == h - 1)), ingrid((a, b), w, h), *post.values())
    c.lemma('when the end marker is reached every cell was visited', z3.Not(before((x, y), (a, b))),
            ingrid((x, y), w, h), ingrid((a, b), w, h), nx == w, ny == h, *post.values())
    c.lemma('end marker is no cell', z3.Not(ingrid((w, h), w, h)))
    # termination: the order is bounded above by the last cell
    c.lemma('bounded above by the last cell', z3.Not(before((w - 1, h - 1), (a, b))), ingrid((a, b), w, h))


P.native = dict(src='c02.cpp', secs=2, tsecs=40)
