from core import *
from eng import Throw, FnPtr, Cells, Arr, Kill, Opaque
from lib import trust
import re
P = Property('C32', 'Queries act on the archive and path they name')
P.modules = {'a': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_network/api/handlers/query.cpp>
extern "C" {
using Q_ = hzapi::Query;
using L_ = std::vector<HZ_ArchiveTrieListElement>;
void d_loc(uint64_t *o) { o[0] = offsetof(Q_, _archive_provider); o[1] = sizeof(Q_); o[2] = sizeof(HZ_ArchiveTrieListElement); o[3] = offsetof(HZ_ArchiveTrieListElement, is_leaf); o[4] = sizeof(L_); o[5] = sizeof(HZ_Archive); }
void d_start(Q_ *s) { s->start(); }
}
''', flags=['-fno-access-control'], keep=re.compile(r'basic_string|::_Destroy'))}
CONN, INVALID, VALID = 'ApiErrors::ConnectionError', 'ApiErrors::InvalidOperationError', 'UtilErrors::ValidationError'
ARCHIVE, CHECK, LIST, PIGGY, DEL, DELM, MEM, TARGET, LISTM = range(9)


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 64)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(8)]


def put(eng, st, p, v):
    os, ri, r = eng.access(st, p, 8, 'put')
    eng._store(st, os, ri, r, p, 8, v, False)


def receives(mods, fn, seen=None):
    """does this function (or one it calls) receive something?"""
    seen = set() if seen is None else seen
    if fn is None or fn.name in seen:
        return False
    seen.add(fn.name)
    return any(calls(mods, fn, b, seen) for b in fn.blocks)


def calls(mods, fn, b, seen):
    for i in fn.blocks[b]:
        if i.op in ('call', 'invoke') and i.a['f'][0] == 'glob':
            n = i.a['f'][1]
            if 't_recv' in n:
                return True
            if receives(mods, fn.mod.fns.get(n), seen):
                return True
    return False


@P.unit('query', 'd_start', 'a')
def query(c):
    e, st0 = c.eng, c.st
    e.opts['no_termination'] = True       # a client may go on naming archives and targets for ever
    e.opts['cell_vars'] = e.opts['cell_ptrs'] = True
    po, sz, es, lo, vs, asz = locs(c)[:6]
    prov = c.cells('providers', 64)
    one = z3.BitVecVal(1, 64)
    this = c.cells('this', sz, {po: ('p', Ptr(prov)), po + 8: (64, one)})
    c.args = [Ptr(this)]
    F, T, Z = z3.BoolVal(False), z3.BoolVal(True), z3.BitVecVal(0, 64)
    for k, v in dict(phase='ready', cmd=z3.BitVec('no command', 8), len=None, buf=None, path=None, archive=None, target=None, piggy=F, texts=(), list=None, op='', why='', step='count', at=Z).items():
        st0.ghost[k] = v
    seen = {}

    def need(st, cond, what):
        e.oblig(st, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)), 'query', label=what)

    def obj(p):
        return p.obj if isinstance(p, Ptr) and not p.ix and p.c == 0 else None

    # what the paths of the command loop have in common is explored once per shape: at each command, numbers that depend on the
    # client are forgotten, and a shape of the reachable state that was met before is not explored again
    def shape(st):
        names, new, key = {}, {}, []
        if st.ghost['archive'] is not None:
            names[st.ghost['archive'].oid] = 'archive'
        if st.ghost['target'] is not None:
            names[st.ghost['target'].oid] = 'target'
        texts = {t[0].oid: t for t in st.ghost['texts']}
        kept = []

        def forget(o):
            # any path of any length, but terminated
            if o.oid not in new:
                ln = z3.ZeroExt(48, z3.FreshConst(z3.BitVecSort(16), 'length'))
                q = new[o.oid] = e.new_arr(st, 'path', 1, ln + 1)
                e.poke(st, Ptr(q, 0, ((ln, 1),)), 8, z3.BitVecVal(0, 8))
                kept.append((q, ln, texts[o.oid][2]))
            return new[o.oid]

        def val(v):
            if isinstance(v, Ptr):
                o = v.obj
                if o is None:
                    return ('null',), v
                if o.kind == 'stack':
                    return ('stack', o.name, v.c, str(v.ix)), v
                if v.ix:
                    raise Unsupported('a pointer into a buffer is kept across commands')
                if o.oid in texts:
                    return ('path', names.get(o.oid), texts[o.oid][2], v.c), Ptr(forget(o), v.c)
                return ('heap', names.get(o.oid, o.name), v.c), v
            if z3.is_expr(v):
                v = z3.simplify(v)
                if z3.is_bv_value(v) or z3.is_true(v) or z3.is_false(v):
                    return ('c', str(v)), v
                return ('?', str(v.sort())), z3.FreshConst(v.sort(), 'client')
            return (type(v).__name__,), v
        for f in st.frames:
            for d in [i.dst for h in f.fn.loops for i in e.phis(f.fn, h)]:
                if d in f.env:
                    k, f.env[d] = val(f.env[d])
                    key.append((f.fn.name, d, k))
            key.append((f.fn.name, f.blk, f.ip))
        for oid in sorted(st.mem):
            o = e.objs.get(oid)
            if o is None or o.kind != 'stack' or st.mem[oid].lazy is not None:
                continue
            os = st.mem[oid].copy()
            for ri, r in enumerate(os.regs):
                if r.kind == 'cells':
                    d = {}
                    for off, (nb, v) in r.d.items():
                        k, v = val(v)
                        d[off] = (nb, v)
                        key.append((o.name, off, nb, k))
                    os.regs[ri] = Cells(r.start, r.length, d, r.fill)
            st.mem[oid] = os
        if st.ghost['target'] is not None:
            st.setg('target', forget(st.ghost['target']))
        st.setg('texts', tuple(kept))
        st.setg('path', None)
        st.setg('len', None)
        key.append(tuple(st.ghost[n] is None for n in ('archive', 'target')) + (str(z3.simplify(st.ghost['piggy'])),))
        return tuple(key)

    old = e.loop_spec

    def loop_spec(fn, h):
        k = (fn.name, h)
        if k not in e.loop_ids and any(calls(e.mods, fn, b, set()) for b in fn.loops[h]):
            e.loop_ids[k] = None
        return old(fn, h)
    e.loop_spec = loop_spec
    st0.ghost['first'] = True

    def thrown(st, ti, why):
        st.setg('why', why)
        return Throw(st, ti, Ptr(e.newobj(st, 'exception', [Cells(0, 64)])))

    def text(st, p):
        o = obj(p)
        return next((t for t in st.ghost['texts'] if t[0] is o), None)

    def terminated(st, o, n):
        return e.peek(st, Ptr(o, 0, ((n, 1),)), 8) == 0

    @trust('SocketInterface::t_recv: contract verified in C21')
    def recv(eng, st, k):
        g = st.ghost
        need(st, g['op'] == '', 'nothing is read after the answer')
        need(st, isinstance(k.args[0], Ptr) and k.args[0].obj is this and k.args[0].c == 0, 'reads from its own connection')
        if g['phase'] == 'command' and eng.check(st, g['cmd'] == PIGGY, 2000) != 'unsat':
            s = st.fork()
            s.assume(g['cmd'] == PIGGY)
            st.assume(g['cmd'] != PIGGY)
            s.setg('piggy', T)
            s.setg('phase', 'ready')
            return command(eng, s, k) + (argument(eng, st, k) if eng.check(st, T, 2000) != 'unsat' else [])
        return command(eng, st, k) if g['phase'] == 'ready' else argument(eng, st, k)

    def command(eng, st, k):
        need(st, k.args[2] == 1, 'a command has one byte')
        if st.ghost['first']:
            seen.clear()
            st.setg('first', False)
        key = shape(st)
        if key in seen:
            return []
        seen[key] = True
        bad = thrown(st.fork(), CONN, 'lost')
        v = eng.fresh(st, 'command', 8)
        eng.poke(st, k.args[1], 8, v)
        st.setg('cmd', v)
        st.setg('phase', 'command')
        return [(st, None), bad]

    def argument(eng, st, k):
        g, ph = st.ghost, st.ghost['phase']
        bad = thrown(st.fork(), CONN, 'lost')
        if ph == 'command':
            need(st, z3.And(k.args[2] == 2, z3.Or(g['cmd'] == ARCHIVE, g['cmd'] == TARGET)), 'only an archive or a target has an argument, whose length comes first, in 2 bytes')
            v = eng.fresh(st, 'length', 16)
            eng.poke(st, k.args[1], 16, v)
            st.setg('len', z3.ZeroExt(48, v))
            st.setg('phase', 'length')
        else:
            need(st, ph == 'length', 'one argument per command')
            o = obj(k.args[1])
            if o is None or g['len'] is None:
                raise Unsupported('a path received elsewhere than at the start of a buffer')
            need(st, k.args[2] == g['len'], 'exactly the bytes announced are read')
            # the last byte, if any, lies in the buffer
            s2 = st.fork()
            s2.assume(z3.UGT(g['len'], 0))
            eng.access(s2, Ptr(o, 0, ((g['len'] - 1, 1),)), 1, 'the bytes received lie in the buffer')
            st.setg('texts', g['texts'] + ((o, g['len'], 'raw'),))
            st.setg('path', o)
            st.setg('phase', 'argument')
        return [(st, None), bad]
    c.handle(re.compile(r'SocketInterface::t_recv\('), recv)

    def str_text(eng, st, k):
        t = text(st, k.args[1])
        if t is not None:
            need(st, terminated(st, t[0], t[1]), 'a path ends where the client said')
        put(eng, st, k.args[0], k.args[1])
    str_text.trust = 'std::string from characters: the text up to the first NUL'
    c.handle(re.compile(r'::basic_string(<.*>)?\(char const\*'), str_text)

    def str_copy(eng, st, k):
        put(eng, st, k.args[0], eng.peekp(st, k.args[1]))
    str_copy.trust = 'std::string copy: the same text'
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> (const)?&&?\)$'), str_copy)
    c.handle(re.compile(r'::~basic_string\('), lambda eng, st, k: None)

    def path_of(eng, st, p):
        x = eng.peekp(st, p)
        return text(st, x) if isinstance(x, Ptr) else None

    @trust('hz_validate_path: contract verified in C16')
    def validate(eng, st, k):
        t = path_of(eng, st, k.args[0])
        if t is None:
            need(st, F, 'validates a path the client sent')
            raise Kill()
        bad = thrown(st.fork(), VALID, 'path')
        st.setg('texts', tuple((x[0], x[1], 'valid') if x is t else x for x in st.ghost['texts']))
        if t[0] is st.ghost['path'] and st.ghost['phase'] == 'argument':
            s = z3.simplify(st.ghost['cmd'] == TARGET)
            need(st, s, 'targets are validated')
            st.setg('target', t[0])
            st.setg('phase', 'ready')
        return [(st, None), bad]
    c.handle(re.compile(r'^hz_validate_path\('), validate)

    @trust('ArchiveProvider::provide: contract verified in C29; or throws')
    def provide(eng, st, k):
        need(st, obj(k.args[0]) is prov, 'archives come from the table of the server')
        t = path_of(eng, st, k.args[1])
        need(st, t is not None and t[0] is st.ghost['path'] and st.ghost['phase'] == 'argument', 'opens the archive just named')
        need(st, st.ghost['cmd'] == ARCHIVE, 'opens an archive only when one is named')
        bad = thrown(st.fork(), 'std::runtime_error', 'archive')
        a = eng.newobj(st, 'an archive', [Cells(0, asz)])
        st.setg('archive', a)
        st.setg('phase', 'ready')
        return [(st, (Ptr(a), one)), bad]
    c.handle(re.compile(r'^hzapi::ArchiveProvider::provide\('), provide)

    def oper(name, cmd, this_, path):
        """every operation on an archive: the right command, archive and path"""
        def check(st, eng, k):
            g = st.ghost
            need(st, g['op'] == '', 'one operation per query')
            need(st, g['cmd'] == cmd if g['phase'] == 'command' else F, '%s only when asked to' % name)
            need(st, g['archive'] is not None and obj(k.args[this_]) is g['archive'], '%s: in the archive named last' % name)
            t = path_of(eng, st, k.args[path])
            need(st, t is not None and t[0] is g['target'] and t[2] == 'valid', '%s: the target named last, once validated' % name)
            if cmd not in (DEL, DELM):
                need(st, g['piggy'], '%s: only with piggyback' % name)
            st.setg('op', name)
        return check

    def simple(name, cmd, fresh=None):
        chk = oper(name, cmd, 0, 1)

        def h(eng, st, k):
            chk(st, eng, k)
            bad = thrown(st.fork(), 'std::runtime_error', 'operation')
            if fresh:
                r = eng.fresh(st, 'found', 1)
                st.setg('found', r)
                return [(st, r), bad]
            return [(st, None), bad]
        h.trust = 'archive operation: contract verified in C23 to C25; or throws'
        return h
    c.handle(re.compile(r'^HZ_Archive::remove_file\('), simple('deletes a file', DEL))
    c.handle(re.compile(r'^HZ_Archive::uninstall_mstate\('), simple('deletes a model state', DELM))
    c.handle(re.compile(r'^HZ_Archive::check_file_exists\('), simple('looks for a file', CHECK, True))

    n = c.sym('entries', 64)
    c.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    LEN = z3.Function('name length', z3.BitVecSort(64), z3.BitVecSort(64))
    names = e.new_arr(st0, 'names', 1, n)
    elems = e.new_arr(st0, 'elements', {'S': es, 0: 8, lo: 1}, n)

    def listing(name, cmd):
        chk = oper(name, cmd, 1, 2)

        def h(eng, st, k):
            chk(st, eng, k)
            bad = thrown(st.fork(), 'std::runtime_error', 'operation')
            put(eng, st, k.args[0], Ptr(elems))
            for o in (8, 16):
                put(eng, st, Ptr(k.args[0].obj, k.args[0].c + o, k.args[0].ix), Ptr(elems, 0, ((n, es),)))
            st.setg('step', 'count')
            return [(st, None), bad]
        h.trust = 'listing of an archive: any vector of names and flags'
        return h
    c.handle(re.compile(r'^HZ_Archive::list_file_system\('), listing('lists files', LIST))
    c.handle(re.compile(r'^HZ_Archive::list_mstate_system\('), listing('lists model states', LISTM))
    c.handle(re.compile(r'^std::vector<HZ_ArchiveTrieListElement.*>::~vector\('), lambda eng, st, k: None)

    c.handle(re.compile(r'std::(__1::)?_Destroy|_Destroy_aux'), lambda eng, st, k: None)

    def element(p):
        if not isinstance(p, Ptr) or p.obj is not elems or p.c != 0:
            return None
        if not p.ix:
            return Z
        if len(p.ix) == 1 and p.ix[0][1] == es:
            return p.ix[0][0]
        return None

    @trust('std::string::length')
    def length(eng, st, k):
        i = element(k.args[0])
        if i is None:
            raise Unsupported('length of another text')
        need(st, z3.ULT(i, n), 'only existing entries are sent')
        return LEN(i)
    c.handle(re.compile(r'::basic_string<.*>::(length|size)\(\) const$|^std::.*basic_string<.*>::(length|size)\(\) const$'), length)

    @trust('std::string::c_str, data')
    def cstr(eng, st, k):
        i = element(k.args[0])
        if i is None:
            raise Unsupported('characters of another text')
        need(st, z3.ULT(i, n), 'only existing entries are sent')
        return Ptr(names, 0, ((i, 1),))
    c.handle(re.compile(r'basic_string<.*>::(c_str|data)\(\) const$'), cstr)

    @trust('Allocator::alloc_size')
    def usage(eng, st, k):
        r = eng.fresh(st, 'usage', 64)
        st.setg('usage', r)
        return r
    c.handle(re.compile(r'^rainman::Allocator::alloc_size\('), usage)

    @trust('SocketInterface::t_send: contract verified in C21')
    def send(eng, st, k):
        g = st.ghost
        need(st, isinstance(k.args[0], Ptr) and k.args[0].obj is this and k.args[0].c == 0, 'answers on its own connection')
        op, step, p, m = g['op'], g['step'], k.args[1], k.args[2]
        if op == 'looks for a file':
            need(st, step == 'count', 'answers once')
            need(st, m == 1, 'the answer has one byte')
            need(st, eng.peek(st, p, 8) == z3.If(g['found'], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(g['found']) else eng.peek(st, p, 8) == z3.ZeroExt(7, g['found']), 'the answer is whether the file is there')
            st.setg('step', 'end')
        elif op in ('lists files', 'lists model states'):
            if step == 'count':
                need(st, m == 8, 'the number of entries has 8 bytes')
                need(st, eng.peek(st, p, 64) == n, 'the number of entries comes first')
                st.setg('step', 'length')
            elif step == 'length':
                need(st, z3.And(m == 2, z3.ULT(g['at'], n)), 'the length of a name has 2 bytes')
                need(st, eng.peek(st, p, 16) == z3.Extract(15, 0, LEN(g['at'])), 'every entry is sent, in order, its length first')
                st.setg('step', 'name')
            elif step == 'name':
                ok = isinstance(p, Ptr) and p.obj is names and len(p.ix) < 2
                need(st, ok and z3.And(p.c + (p.ix[0][0] if p.ix else Z) == g['at'], m == z3.ZeroExt(48, z3.Extract(15, 0, LEN(g['at'])))), 'then its name')
                st.setg('step', 'flag')
            else:
                ok = isinstance(p, Ptr) and p.obj is elems and p.c == lo
                need(st, ok and z3.And((p.ix[0][0] if p.ix else Z) == g['at'],  m == 1), 'then whether it is an entry itself')
                st.setg('step', 'length')
                st.setg('at', g['at'] + 1)
        else:
            need(st, z3.And(g['cmd'] == MEM, m == 8) if op == '' and g['phase'] == 'command' else F, 'sends nothing but answers')
            if g.get('usage') is not None:
                need(st, eng.peek(st, p, 64) == g['usage'], 'the answer is the memory in use')
            else:
                need(st, F, 'the answer is the memory in use')
            st.setg('op', 'usage')
        bad = thrown(st.fork(), CONN, 'lost')
        return [(st, None), bad]
    c.handle(re.compile(r'SocketInterface::t_send\('), send)
    st0.ghost['usage'] = None
    c.auto(lambda L, v: {}, once=lambda L: dict([('at most all entries sent', z3.ULE(L.st.ghost['at'], n))] + [('entries sent so far: %s' % nm, L.st.ghost['at'] == v) for nm, v, _, w in L.vars() if w == 64]))
    yield
    for t in c.terminals:
        g = t.ghost
        op = g['op']
        if t.done == 'ret':
            c.ensure(t, 'a query ends with its answer', z3.BoolVal(op != ''))
            if op == 'looks for a file':
                c.ensure(t, 'the answer was sent', z3.BoolVal(g['step'] == 'end'))
            if op.startswith('lists'):
                c.ensure(t, 'every entry was sent', z3.And(z3.BoolVal(g['step'] == 'length'), g['at'] == n))
        elif g['why'] == '':
            # refused: something is missing or the command is unknown
            cmd, miss = g['cmd'], z3.BoolVal(g['archive'] is None or g['target'] is None)
            c.ensure(t, 'nothing was done by a query that is refused', z3.BoolVal(op == '' and g['phase'] == 'command'))
            c.ensure(t, 'refused only if the command is unknown or something it needs is missing',
                     z3.Or(z3.UGT(cmd, LISTM), z3.And(z3.Or(cmd == CHECK, cmd == LIST, cmd == LISTM), z3.Or(miss, z3.Not(g['piggy']))), z3.And(z3.Or(cmd == DEL, cmd == DELM), miss)))


P.native = dict(src='c32.cpp', repo=['src/hzip_network/api/handlers/query.cpp'], secs=3, tsecs=60)
