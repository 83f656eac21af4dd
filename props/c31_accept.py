from core import *
from eng import Throw, Cells
from lib import trust
import re
P = Property('C31', 'Accepted connections')
P.modules = {'a': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <thread>
#include <hzip_network/api/api.h>
// a thread runs its function here and now: schedules are not part of this claim
namespace std { struct hz_thread { template<typename F, typename ...A> hz_thread(F f, const A &...a) { f(a...); } void detach() {} void join() {} }; }
#define thread hz_thread
#include <hzip_network/api/api.cpp>
#undef thread
extern "C" {
using A_ = hzapi::Api;
void d_loc(uint64_t *o) { o[0] = offsetof(A_, processor); o[1] = offsetof(A_, max_instances); o[2] = offsetof(A_, _semaphore); o[3] = offsetof(A_, passwd); o[4] = offsetof(A_, time_out); o[5] = offsetof(A_, archive_provider); o[6] = offsetof(A_, server_sock); o[7] = sizeof(A_); }
void d_start(A_ *s, const char *addr, uint16_t port) { s->start(addr, port); }
void d_new(A_ *s, uint64_t n) { new (s) A_(n); }
}
''', flags=['-fno-access-control'])}


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 64)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(8)]


def put(eng, st, p, v):
    os, ri, r = eng.access(st, p, 8, 'put')
    eng._store(st, os, ri, r, p, 8, v, False)


@P.unit('accepting', 'd_start', 'a')
def accepting(c):
    e, st0 = c.eng, c.st
    e.opts['no_termination'] = True       # a server runs for ever
    po, mo, so, wo, to, ao, ss, sz = locs(c)
    one = z3.BitVecVal(1, 64)
    proc, sem, pwc, text, arch0 = (c.cells(n, 64) for n in ('processor', 'semaphore', 'password', 'address', 'old table'))
    sec = c.sym('timeout', 64)
    this = c.cells('this', sz, {po: ('p', Ptr(proc)), po + 8: (64, one), so: ('p', Ptr(sem)), so + 8: (64, one), wo: ('p', Ptr(pwc)), to: (64, sec), to + 8: (64, c.sym('usec', 64)),
                                ao: ('p', Ptr(arch0)), ao + 8: (64, one), mo: (64, c.sym('instances', 64))})
    c.args = [Ptr(this), Ptr(text), c.sym('port', 16)]
    F, T, Z = z3.BoolVal(False), z3.BoolVal(True), z3.BitVecVal(0, 64)
    for k, v in dict(listening='no', conn=F, served=T, held=Z, sent=F, received=F, sock=z3.BitVecVal(0, 32), server=z3.BitVecVal(0, 32)).items():
        st0.ghost[k] = v

    def need(st, cond, what):
        e.oblig(st, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)), 'server', label=what)

    def str_copy(eng, st, k):
        put(eng, st, k.args[0], eng.peekp(st, k.args[1]))
    str_copy.trust = 'std::string copy: the same text'
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> (const)?&&?\)$'), str_copy)

    def str_text(eng, st, k):
        put(eng, st, k.args[0], Ptr(text))
    str_text.trust = 'std::string from characters'
    c.handle(re.compile(r'::basic_string(<.*>)?\(char const\*'), str_text)

    def sys(name):
        def deco(f):
            f.trust = '%s: system call' % name
            c.handle(name, f)
            return f
        return deco

    @sys('socket')
    def socket(eng, st, k):
        r = eng.fresh(st, 'server socket', 32)
        st.setg('server', r)
        return r

    @sys('bind')
    def bind(eng, st, k):
        need(st, k.args[0] == st.ghost['server'], 'binds its own socket')
        return eng.fresh(st, 'bind result', 32)

    @sys('listen')
    def listen(eng, st, k):
        need(st, k.args[0] == st.ghost['server'], 'listens on its own socket')
        st.setg('listening', 'yes')
        return eng.fresh(st, 'listen result', 32)

    @sys('accept')
    def accept(eng, st, k):
        need(st, k.args[0] == st.ghost['server'], 'accepts on its own socket')
        need(st, st.ghost['listening'] == 'yes', 'accepts only once it listens')
        need(st, z3.Not(st.ghost['conn']), 'no connection is dropped: each is served or closed before the next is accepted')
        need(st, st.ghost['held'] == 0, 'no permit is lost')
        r = eng.fresh(st, 'connection', 32)
        st.setg('sock', r)
        st.setg('conn', r >= 0)
        st.setg('served', F)
        st.setg('sent', F)
        st.setg('received', F)
        return r

    @sys('setsockopt')
    def setsockopt(eng, st, k):
        need(st, z3.And(k.args[0] == st.ghost['sock'], z3.Not(st.ghost['served'])), 'sets options of the new connection')
        r = eng.fresh(st, 'setsockopt result', 32)
        s2 = st.fork()
        s2.assume(r < 0)
        st.assume(r >= 0)
        if z3.is_bv_value(k.args[2]):
            # SO_RCVTIMEO 20, SO_SNDTIMEO 21
            v = k.args[2].as_long()
            good = isinstance(k.args[3], Ptr) and k.args[3].obj is this and k.args[3].c == to and not k.args[3].ix
            if v == 20 and good:
                st.setg('received', T)
            if v == 21 and good:
                st.setg('sent', T)
        return [(st, r), (s2, r)]

    @sys('close')
    def close(eng, st, k):
        need(st, z3.And(k.args[0] == st.ghost['sock'], z3.Not(st.ghost['served'])), 'closes only a connection it did not hand over')
        st.setg('conn', F)
        st.setg('served', T)
        return z3.BitVecVal(0, 32)
    for n in ('inet_addr',):
        c.handle(n, lambda eng, st, k: eng.fresh(st, 'addr', 32))
    c.handle(re.compile('^(htons|ntohs)$'), lambda eng, st, k: eng.fresh(st, 'port', 16))
    c.handle('inet_ntop', lambda eng, st, k: Ptr(None) if False else k.args[2])

    def permits(k):
        return isinstance(k.args[0], Ptr) and k.args[0].obj is sem

    @trust('Semaphore::acquire: contract verified in C20')
    def acquire(eng, st, k):
        need(st, permits(k), 'the permits of the server')
        st.setg('held', st.ghost['held'] + 1)

    @trust('Semaphore::release: contract verified in C20')
    def release(eng, st, k):
        need(st, permits(k), 'the permits of the server')
        need(st, z3.UGE(st.ghost['held'], 1), 'gives back only permits it holds')
        st.setg('held', st.ghost['held'] - 1)
    c.handle(re.compile(r'^Semaphore::acquire\('), acquire)
    c.handle(re.compile(r'^Semaphore::release\('), release)

    @trust('constructor of a session keeps its arguments')
    def made(eng, st, k):
        a = k.args
        need(st, a[1] == st.ghost['sock'], 'the session gets the new connection')
        for i, want, w in ((2, proc, 'processor'), (3, pwc, 'password'), (4, sem, 'permits')):
            q = eng.peekp(st, a[i])
            need(st, isinstance(q, Ptr) and q.obj is want, 'the session shares the %s of the server' % w)
        q, w = eng.peekp(st, a[7]), eng.peekp(st, Ptr(this, ao))
        need(st, isinstance(q, Ptr) and isinstance(w, Ptr) and q.obj is w.obj, 'the session shares the archive table of the server')
        put(eng, st, a[0], Ptr(text))
    c.handle(re.compile(r'^hzapi::ApiInstance::ApiInstance\('), made)

    @trust('ApiInstance::start: contract verified in C28: closes its connection and gives its permit back')
    def serve(eng, st, k):
        need(st, z3.Not(st.ghost['served']), 'one session per connection')
        st.setg('served', T)
        need(st, st.ghost['held'] == 1, 'a session runs only with a permit of its own')
        need(st, z3.Or(sec <= 0, z3.And(st.ghost['sent'], st.ghost['received'])), 'the time limit is set in both directions before the session starts')
        st.setg('conn', F)
        st.setg('held', Z)
    c.handle(re.compile(r'^hzapi::ApiInstance::start\('), serve)
    c.handle(re.compile(r'^hzapi::ApiInstance::~|^hzapi::ArchiveProvider::ArchiveProvider|^std::unordered_map<std::.*>::(~)?unordered_map\('), lambda eng, st, k: None)
    c.auto(lambda L, v: {}, once=lambda L: {'no permit held': L.st.ghost['held'] == 0, 'no connection open': z3.Not(L.st.ghost['conn']), 'same server socket': L.st.ghost['server'] == c.eng.peek(L.st, Ptr(this, ss), 32)})
    yield
    for t in c.terminals:
        c.ensure(t, 'stops only if it cannot listen', z3.And(z3.BoolVal(t.done != 'ret'), t.ghost['held'] == 0, z3.Not(t.ghost['conn'])))


@P.unit('construction', 'd_new', 'a')
def construction(c):
    po, mo, so, wo, to, ao, ss, sz = locs(c)
    n = c.sym('n', 64)
    this = c.cells('this', sz)
    c.args = [Ptr(this), n]
    c.st.ghost['made'] = z3.BitVecVal(0, 64)

    @trust('Semaphore(n): contract verified in C20')
    def make(eng, st, k):
        st.setg('made', k.args[1])
        st.setg('sem', k.args[0].obj.name)
    c.handle(re.compile(r'^Semaphore::Semaphore\('), make)
    c.handle(re.compile(r'ArchiveProvider::ArchiveProvider|HZ_Processor::HZ_Processor|^std::unordered_map<std::.*>::(~)?unordered_map\('), lambda eng, st, k: None)
    yield
    for t in c.terminals:
        c.ensure(t, 'as many permits as sessions allowed', t.ghost['made'] == n)
        p = c.eng.peekp(t, Ptr(this, so))
        c.ensure(t, 'the permits are those of the server', z3.BoolVal(p.obj.name == t.ghost.get('sem')))


P.native = dict(src='c31.cpp', repo=['src/hzip_network/api/api.cpp', 'src/hzip_network/api/handlers/socket_class.cpp', 'src/hzip_core/utils/semaphore.cpp'], secs=3, tsecs=60,
                libs=['-pthread', '-Wl,' + ','.join('--wrap=' + x for x in ('socket', 'bind', 'listen', 'accept', 'setsockopt', 'send', 'recv', 'close'))])
