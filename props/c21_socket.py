from core import *
import re
P = Property('C21', 'Socket message framing')
P.modules = {'s': dict(text=r'''
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <hzip_network/api/handlers/socket_class.cpp>
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(SocketInterface, _sock); o[1] = offsetof(SocketInterface, _ip_addr); o[2] = offsetof(SocketInterface, _port); o[3] = sizeof(SocketInterface); }
void d_send(SocketInterface *s, const void *b, size_t n) { s->t_send(b, n); }
void d_recv(SocketInterface *s, void *b, size_t n, bool sync) { s->t_recv(b, n, sync); }
void d_recv_sync(SocketInterface *s) { s->t_recv_sync(); }
void d_error(SocketInterface *s, const std::string *m) { s->error(*m); }
void d_success(SocketInterface *s, const std::string *m) { s->success(*m); }
}
''', flags=['-fno-access-control'])}
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
MSG_WAITALL = 0x100


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 32)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(4)]


class Chunk:
    def __init__(self, kind, n, data, ok, flags):
        self.kind, self.n, self.data, self.ok, self.flags = kind, n, data, ok, flags


def content(eng, st, p, n):
    """the bytes at p, as a function index -> byte"""
    os = st.mem[p.obj.oid]
    r = os.regs[0]
    if r.kind == 'arr':
        a = eng.arr(st, p.obj)
        base = eng.lin_term(eng.poff(p)) if p.ix or p.c else None
        return (lambda k: Sel(a, k + base)) if base is not None else (lambda k: Sel(a, k))
    m = eng.dom.cval(n)
    if m is None:
        raise Unsupported('symbolic length from a fixed object')
    bs = [eng.peek(st, Ptr(p.obj, p.c + i), 8) for i in range(m)]

    def f(k):
        e = z3.BitVecVal(0, 8)
        for i, b in reversed(list(enumerate(bs))):
            e = z3.If(k == i, b, e)
        return e
    return f


def setup(c, sync=None):
    so, io, po, sz = locs(c)
    c.sock = c.sym('sock', 32)
    port = c.sym('port', 16)
    s = c.cells('this', sz, {so: (32, c.sock), po: (16, port)})
    c.this, c.so = s, so
    c.st.ghost['wire'] = ()
    e = c.eng

    def h_send(eng, st, k):
        fd, p, n, fl = k.args
        eng.oblig(st, fd == c.sock, 'postcondition', label='sends on its own socket')
        r = eng.fresh(st, 'send_result', 64)
        st.assume(r >= -1, z3.Or(r == -1, z3.And(r >= 0, r <= n)))
        z = z3.simplify(n)
        data = content(eng, st, p, n) if not (eng.dom.cval(n) == 0) else (lambda k: z3.BitVecVal(0, 8))
        st.setg('wire', st.ghost['wire'] + (Chunk('send', n, data, r == n, fl),))
        return r
    h_send.trust = 'send(): transmits a prefix of the buffer and returns its length, or -1'

    def h_recv(eng, st, k):
        fd, p, n, fl = k.args
        eng.oblig(st, fd == c.sock, 'postcondition', label='receives from its own socket')
        r = eng.fresh(st, 'recv_result', 64)
        st.assume(r >= -1, z3.Or(r == -1, z3.And(r >= 0, r <= n)))
        # frame: only [p, p+n) may be written
        o = p.obj
        a = eng.arr(st, o)
        b = eng.freshc('received', a.sort())
        st.fa.append(c.fa(lambda k: z3.Implies(z3.Not(ULT(k, n)), Sel(b, k) == Sel(a, k))))
        eng.require(st, ULE(n, c.cap), 'memory', label='receive stays in the buffer')
        eng.setarr(st, o, b)
        st.setg('wire', st.ghost['wire'] + (Chunk('recv', n, lambda k: Sel(b, k), r == n, fl),))
        return r
    h_recv.trust = 'recv(): fills a prefix of the buffer and returns its length, or -1'
    c.handle('send', h_send)
    c.handle('recv', h_recv)
    return s


def buffer(c):
    c.n = n = c.sym('n', 64)
    c.assume(ULT(n, 1 << 62))
    c.cap = n
    c.buf = c.array('buf', 1, n)
    c.B0 = c.arr(c.buf)


def string(c):
    c.n = n = c.sym('n', 64)
    c.assume(ULT(n, 1 << 62))
    s = c.array('chars', 1, n + 1)
    c.S0 = c.arr(s)
    c.assume(Sel(c.S0, n) == 0)
    o = c.cells('msg', 32, {0: ('p', Ptr(s)), 8: (64, n), 16: (64, n)})
    c.buf, c.B0 = s, c.S0
    return o


def judge(c, want, silent=False):
    """want: list of (name, kind, length, content-function or None) in order"""
    for t in c.terminals:
        w = t.ghost['wire']
        allok = z3.And(*[x.ok for x in w]) if w else z3.BoolVal(True)
        if t.done != 'ret':
            c.ensure(t, 'the only error is a connection error', z3.BoolVal('ConnectionError' in str(t.exc[0]) and not silent))
            c.ensure(t, 'an error means a transfer fell short', z3.Not(allok))
        else:
            if not silent:
                c.ensure(t, 'a short or failed transfer is reported', allok)
            c.ensure(t, 'all parts of the message are transferred', z3.BoolVal(len(w) == len(want)))
        for x, (nm, kind, n, data) in zip(w, want):
            c.ensure(t, '%s: direction' % nm, z3.BoolVal(x.kind == kind))
            c.ensure(t, '%s: length' % nm, x.n == n)
            if kind == 'recv':
                c.ensure(t, '%s: waits for the whole message' % nm, x.flags & MSG_WAITALL != 0)
                c.ensure(t, '%s: delivered to the caller' % nm, c.fa(lambda k: z3.Implies(ULT(k, n), Sel(c.arr(c.buf, st=t), k) == x.data(k))))
            else:
                c.ensure(t, '%s: content' % nm, c.fa(lambda k: z3.Implies(ULT(k, n), x.data(k) == data(k))))
        c.ensure(t, 'socket kept', c.peek(t, Ptr(c.this, c.so), 32) == c.sock)
        if all(x.kind == 'send' for x in w) and hasattr(c, 'buf'):
            c.ensure(t, 'caller data unchanged', c.fa(lambda k: Sel(c.arr(c.buf, st=t), k) == Sel(c.B0, k)))


one = z3.BitVecVal(1, 64)
OK = ('success word', 'send', one, lambda k: z3.BitVecVal(0, 8))


@P.unit('send', 'd_send', 's')
def u_send(c):
    s = setup(c)
    buffer(c)
    c.args = [Ptr(s), Ptr(c.buf), c.n]
    yield
    judge(c, [OK, ('payload', 'send', c.n, lambda k: Sel(c.B0, k))])


def recv_unit(sync):
    def body(c):
        s = setup(c)
        buffer(c)
        c.args = [Ptr(s), Ptr(c.buf), c.n, z3.BoolVal(sync)]
        yield
        judge(c, ([OK] if sync else []) + [('payload', 'recv', c.n, None)])
    return body


P.unit('receive with handshake', 'd_recv', 's')(recv_unit(True))
P.unit('receive without handshake', 'd_recv', 's')(recv_unit(False))


@P.unit('handshake', 'd_recv_sync', 's')
def u_sync(c):
    s = setup(c)
    c.args = [Ptr(s)]
    yield
    judge(c, [OK])


def le16(n):
    l = z3.Extract(15, 0, n)
    return lambda k: z3.If(k == 0, z3.Extract(7, 0, l), z3.Extract(15, 8, l))


@P.unit('error message', 'd_error', 's')
def u_error(c):
    s = setup(c)
    m = string(c)
    c.args = [Ptr(s), Ptr(m)]
    yield
    two = z3.BitVecVal(2, 64)
    judge(c, [('error word', 'send', one, lambda k: z3.BitVecVal(0xff, 8)), ('length', 'send', two, le16(c.n)),
              ('text', 'send', c.n & 0xffff, lambda k: Sel(c.S0, k))], silent=True)


@P.unit('success message', 'd_success', 's')
def u_success(c):
    s = setup(c)
    m = string(c)
    c.args = [Ptr(s), Ptr(m)]
    yield
    two = z3.BitVecVal(2, 64)
    judge(c, [OK, ('length', 'send', two, le16(c.n)), OK, ('text', 'send', c.n & 0xffff, lambda k: Sel(c.S0, k))])
P.native = dict(src='c21.cpp', repo=['src/hzip_network/api/handlers/socket_class.cpp'], secs=2, tsecs=40, libs=['-Wl,--wrap=send,--wrap=recv'])
