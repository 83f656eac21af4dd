from core import *
from eng import Throw, FnPtr, Cells
from lib import trust
import re
P = Property('C28', 'Sessions serve nothing before the handshake')
P.modules = {'a': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_network/api/api.cpp>
extern "C" {
using I_ = hzapi::ApiInstance;
void d_loc(uint64_t *o) { o[0] = offsetof(I_, _sock); o[1] = offsetof(I_, _ip_addr); o[2] = offsetof(I_, _port); o[3] = offsetof(I_, _processor); o[4] = offsetof(I_, _password); o[5] = offsetof(I_, _semaphore); o[6] = offsetof(I_, _archive_provider); o[7] = sizeof(I_); }
void d_start(I_ *s) { s->start(); }
}
''', flags=['-fno-access-control'])}
CLOSE, STREAM, QUERY, HEALTH = 0xff, 0, 1, 2
CONN = 'ApiErrors::ConnectionError'


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 64)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(8)]


@P.unit('session', 'd_start', 'a')
def session(c):
    e, st0 = c.eng, c.st
    e.opts['no_termination'] = True        # a session lasts as long as its client wants
    so, io, po, pro, pao, seo, aro, sz = locs(c)
    sock = c.sym('sock', 32)
    proc, sem, arch, ipc, pwc = (c.cells(n, 64) for n in ('processor', 'semaphore', 'archives', 'ip text', 'password text'))
    one = z3.BitVecVal(1, 64)
    this = c.cells('this', sz, {so: (32, sock), po: (16, c.sym('port', 16)), io: ('p', Ptr(ipc)), pao: ('p', Ptr(pwc)),
                                pro: ('p', Ptr(proc)), pro + 8: (64, one), seo: ('p', Ptr(sem)), seo + 8: (64, one), aro: ('p', Ptr(arch)), aro + 8: (64, one)})
    E = z3.Function('scrambled', z3.BitVecSort(64), z3.BitVecSort(64))
    for k, v in dict(phase='new', closed=False, released=False, token=None, answer=None, cmd=z3.BitVec('no command', 8)).items():
        st0.ghost[k] = v
    c.args = [Ptr(this)]
    F, T = z3.BoolVal(False), z3.BoolVal(True)

    def need(st, cond, what):
        e.oblig(st, cond, 'protocol', label=what)

    def live(st):
        need(st, z3.BoolVal(not st.ghost['closed'] and not st.ghost['released']), 'nothing happens after the session has ended')

    def is_this(p, off=0):
        return z3.BoolVal(isinstance(p, Ptr) and p.obj is this and not p.ix and p.c == off)

    what = c.cells('what', 64)
    vtab = c.cells('vtable', 64, {16: ('p', FnPtr('what()'))})

    def thrown(st, ti):
        # an exception object with a message of its own
        return Throw(st, ti, Ptr(e.newobj(st, 'exception', [Cells(0, 64, {0: (8, Ptr(vtab))})])))

    def lost(st):
        s = st.fork()
        s.setg('phase', 'lost')
        return thrown(s, CONN)

    # strings: a copy refers to the same text
    def put_text(eng, st, d, text):
        os, ri, r = eng.access(st, d, 8, 'string')
        eng._store(st, os, ri, r, d, 8, text, False)

    def text_of(eng, st, p):
        try:
            x = eng.peekp(st, p)
        except Unsupported:
            return None
        return x.obj if isinstance(x, Ptr) else None

    def str_copy(eng, st, k):
        put_text(eng, st, k.args[0], eng.peekp(st, k.args[1]))
    str_copy.trust = 'std::string copy: the same text'
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> const&\)$'), str_copy)

    def str_text(eng, st, k):
        put_text(eng, st, k.args[0], k.args[1])
    str_text.trust = 'std::string from characters: the same text'
    c.handle(re.compile(r'::basic_string<std::allocator<char>\s*>\(char const\*'), str_text)

    @trust('hz_rand64: any 64-bit value')
    def rand(eng, st, k):
        r = eng.fresh(st, 'token', 64)
        need(st, z3.BoolVal(st.ghost['phase'] == 'new' and st.ghost['token'] is None), 'one token per session')
        st.setg('token', r)
        return r
    c.handle(re.compile(r'^hz_rand64\(\)'), rand)

    @trust('hz_enc_token: contract verified in C15')
    def enc(eng, st, k):
        need(st, z3.BoolVal(text_of(eng, st, k.args[0]) is pwc), 'scrambled with the password of the server')
        return E(k.args[1])
    c.handle(re.compile(r'^hz_enc_token\('), enc)

    def send(eng, st, k):
        live(st)
        ok = st.ghost['phase'] == 'new' and st.ghost['token'] is not None
        need(st, z3.BoolVal(ok), 'sends nothing but the scrambled token itself')
        if ok:
            need(st, z3.And(is_this(k.args[0]), k.args[2] == 8), 'sends 8 bytes of challenge on its own connection')
            need(st, eng.peek(st, k.args[1], 64) == E(st.ghost['token']), 'the challenge is the scrambled token')
        bad = lost(st)
        st.setg('phase', 'challenged')
        return [(st, None), bad]
    send.trust = 'SocketInterface::t_send: contract verified in C21'
    c.handle(re.compile(r'SocketInterface::t_send\('), send)

    def recv(eng, st, k):
        live(st)
        ph = st.ghost['phase']
        need(st, z3.BoolVal(ph in ('challenged', 'serving')), 'reads only an answer to the challenge, or a command')
        need(st, is_this(k.args[0]), 'reads from its own connection')
        bad = lost(st)
        if ph == 'challenged':
            need(st, k.args[2] == 8, 'the answer has 8 bytes')
            v = eng.fresh(st, 'answer', 64)
            eng.poke(st, k.args[1], 64, v)
            st.setg('answer', v)
            st.setg('phase', 'answered')
        else:
            need(st, k.args[2] == 1, 'a command has one byte')
            v = eng.fresh(st, 'command', 8)
            eng.poke(st, k.args[1], 8, v)
            st.setg('cmd', v)
            st.setg('phase', 'command')
        return [(st, None), bad]
    recv.trust = 'SocketInterface::t_recv: contract verified in C21'
    c.handle(re.compile(r'SocketInterface::t_recv\('), recv)

    def success(eng, st, k):
        live(st)
        ph = st.ghost['phase']
        need(st, is_this(k.args[0]), 'answers on its own connection')
        if ph == 'answered':
            need(st, st.ghost['answer'] == st.ghost['token'], 'welcomes only a client that sent back the secret token')
        elif ph == 'command':
            need(st, st.ghost['cmd'] == HEALTH, 'answers success itself only to a health check')
        else:
            need(st, F, 'reports success only for a handshake or a health check')
        bad = lost(st)
        st.setg('phase', 'serving')
        return [(st, None), bad]
    success.trust = 'SocketInterface::success: contract verified in C21'
    c.handle(re.compile(r'SocketInterface::success\('), success)

    def error(eng, st, k):
        live(st)
        ph, cmd = st.ghost['phase'], st.ghost['cmd']
        need(st, is_this(k.args[0]), 'answers on its own connection')
        if ph == 'command':
            need(st, z3.And(cmd != CLOSE, cmd != STREAM, cmd != QUERY, cmd != HEALTH), 'a known command is not refused')
        else:
            need(st, z3.BoolVal(ph == 'failed'), 'an error is reported only for a failed or unknown command')
        if ph == 'failed':
            need(st, z3.BoolVal(text_of(eng, st, k.args[1]) is what), 'the client gets the message of the failure')
        st.setg('phase', 'serving')
        return None
    error.trust = 'SocketInterface::error: contract verified in C21 (never throws)'
    c.handle(re.compile(r'SocketInterface::error\('), error)

    def made(cmd, args):
        def h(eng, st, k):
            live(st)
            need(st, k.args[1] == sock, 'the handler gets the connection of the session')
            need(st, z3.BoolVal(st.ghost['phase'] == 'command'), 'a handler is made for a command only')
            for i, (want, off) in args.items():
                p = k.args[i]
                got = eng.peekp(st, p)
                need(st, z3.BoolVal(isinstance(got, Ptr) and got.obj is want), 'the handler shares the %s of the server' % want.name)
            return None
        h.trust = 'constructor keeps its arguments'
        return h

    def start(cmd):
        def h(eng, st, k):
            live(st)
            ph = st.ghost['phase']
            need(st, z3.And(z3.BoolVal(ph == 'command'), st.ghost['cmd'] == cmd) if ph == 'command' else F, 'a %s handler runs for its command, after the handshake' % ('stream' if cmd == STREAM else 'query'))
            bad = lost(st)
            s = st.fork()
            s.setg('phase', 'failed')
            st.setg('phase', 'serving')
            return [(st, None), bad, thrown(s, 'ApiErrors::InvalidOperationError')]
        h.trust = 'a handler returns, or throws a connection error or another std::exception'
        return h
    c.handle(re.compile(r'^hzapi::Streamer::Streamer\('), made(STREAM, {4: (proc, 0), 5: (arch, 0)}))
    c.handle(re.compile(r'^hzapi::Query::Query\('), made(QUERY, {4: (arch, 0)}))
    c.handle(re.compile(r'^hzapi::Streamer::start\('), start(STREAM))
    c.handle(re.compile(r'^hzapi::Query::start\('), start(QUERY))
    c.handle(re.compile(r'^hzapi::(Streamer|Query)::~'), lambda eng, st, k: None)

    @trust('close() ends the connection')
    def close(eng, st, k):
        g = st.ghost
        need(st, k.args[0] == sock, 'closes its own connection')
        need(st, z3.BoolVal(not g['closed']), 'closed once')
        ph = g['phase']
        need(st, T if ph == 'lost' else g['answer'] != g['token'] if ph == 'answered' else g['cmd'] == CLOSE if ph == 'command' else F,
             'a session ends only when asked to, when the connection is lost or the handshake fails')
        st.setg('closed', True)
        return z3.BitVecVal(0, 32)
    c.handle('close', close)

    @trust('Semaphore::release: contract verified in C20')
    def release(eng, st, k):
        need(st, z3.BoolVal(isinstance(k.args[0], Ptr) and k.args[0].obj is sem), 'gives its permit back to the server')
        need(st, z3.BoolVal(not st.ghost['released']), 'permit given back once')
        st.setg('released', True)
    c.handle(re.compile(r'^Semaphore::release\('), release)

    c.handle(re.compile(r'^what\(\)$|::what\(\) const$'), lambda eng, st, k: Ptr(what))
    c.auto(lambda L, v: {})
    yield
    seen = 0
    for t in c.terminals:
        c.ensure(t, 'no exception leaves the session', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the connection is closed and the permit given back', z3.BoolVal(t.ghost['closed'] and t.ghost['released']))


P.native = dict(src='c28.cpp', repo=['src/hzip_network/api/api.cpp', 'src/hzip_network/api/handlers/socket_class.cpp', 'src/hzip_core/utils/semaphore.cpp'], secs=3, tsecs=60, libs=['-Wl,--wrap=send,--wrap=recv,--wrap=close'])
