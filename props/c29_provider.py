from core import *
from eng import Throw, Cells
from lib import trust
import re
P = Property('C29', 'One archive object per path')
P.modules = {'a': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_network/api/providers/archive_provider.cpp>
extern "C" {
using P_ = hzapi::ArchiveProvider;
void d_loc(uint64_t *o) { o[0] = offsetof(P_, arch_map); o[1] = offsetof(P_, mutex); o[2] = sizeof(P_); o[3] = sizeof(HZ_Archive); }
void d_provide(P_ *s, const std::string *p, rainman::ptr<HZ_Archive> *out) { new (out) rainman::ptr<HZ_Archive>(s->provide(*p)); }
void d_close(P_ *s) { s->close(); }
}
''', flags=['-fno-access-control'], keep=re.compile(r'basic_string<.*>::(~)?basic_string|std::operator\+|to_string|std::mutex|unique_lock|scoped_lock|lock_guard|std::unordered_map|_Node_iterator|_Node_const_iterator|std::__throw|_Map_base|_Hashtable'))}
MAP = r'(std::unordered_map<.*>|std::_Hashtable<.*>|std::__detail::_Map_base<.*>)::'


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 64)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(4)]


def put(eng, st, p, v):
    os, ri, r = eng.access(st, p, 8, 'put')
    eng._store(st, os, ri, r, p, 8, v, False)


def common(c):
    mo, lo, sz, asz = locs(c)
    this = c.cells('this', sz)
    c.st.ghost['held'] = False
    c.lock = Ptr(this, lo)
    c.map = Ptr(this, mo)

    def is_(p, q):
        return isinstance(p, Ptr) and p.obj is q.obj and not p.ix and p.c == q.c

    def need(st, cond, what):
        c.eng.oblig(st, cond if z3.is_expr(cond) else z3.BoolVal(cond), 'table', label=what)
    c.need = need

    def take(st, m):
        if not is_(m, c.lock):
            raise Unsupported('another mutex')
        need(st, not st.ghost['held'], 'the lock is not taken twice')
        st.setg('held', True)

    def give(st, m):
        if not is_(m, c.lock):
            raise Unsupported('another mutex')
        need(st, st.ghost['held'], 'only a lock that is held is released')
        st.setg('held', False)

    @trust('std::mutex and its guards: mutual exclusion')
    def lock(eng, st, k):
        take(st, k.args[0])

    @trust('std::mutex and its guards: mutual exclusion')
    def unlock(eng, st, k):
        give(st, k.args[0])
    c.handle(re.compile(r'^std::mutex::lock\('), lock)
    c.handle(re.compile(r'^std::mutex::unlock\('), unlock)

    def g_take(eng, st, k):
        take(st, k.args[1])
        put(eng, st, k.args[0], k.args[1])
        if 'unique_lock' in k.fn:
            eng.poke(st, k.args[0].add(8), 8, z3.BitVecVal(1, 8))
    g_take.trust = lock.trust

    def g_drop(eng, st, k):
        if 'unique_lock' in k.fn:
            o = eng.peek(st, k.args[0].add(8), 8)
            if z3.is_bv_value(o) and o.as_long() == 0:
                return
        give(st, eng.peekp(st, k.args[0]))
    g_drop.trust = lock.trust

    def g_unlock(eng, st, k):
        give(st, eng.peekp(st, k.args[0]))
        eng.poke(st, k.args[0].add(8), 8, z3.BitVecVal(0, 8))
    g_unlock.trust = lock.trust

    def g_lock(eng, st, k):
        take(st, eng.peekp(st, k.args[0]))
        eng.poke(st, k.args[0].add(8), 8, z3.BitVecVal(1, 8))
    g_lock.trust = lock.trust
    c.handle(re.compile(r'^std::(lock_guard|scoped_lock|unique_lock)<std::mutex>::(lock_guard|scoped_lock|unique_lock)\(std::mutex&\)'), g_take)
    c.handle(re.compile(r'^std::(lock_guard|scoped_lock|unique_lock)<std::mutex>::~'), g_drop)
    c.handle(re.compile(r'^std::unique_lock<std::mutex>::unlock\('), g_unlock)
    c.handle(re.compile(r'^std::unique_lock<std::mutex>::lock\('), g_lock)
    what = c.cells('what', 64)

    def thrown(st):
        return Throw(st, 'std::runtime_error', Ptr(c.eng.newobj(st, 'exception', [Cells(0, 64)])))
    c.thrown = thrown

    def mine(st, m):
        need(st, is_(m, c.map) , 'its own table')
        need(st, st.ghost['held'], 'the table is used only under its lock')
    c.mine = mine
    return this, asz


@P.unit('provide', 'd_provide', 'a')
def provide(c):
    this, asz = common(c)
    e, st0, need = c.eng, c.st, c.need
    kept = c.cells('kept archive', asz)
    # the entry of the path asked for: there or not
    there = z3.Bool('known path')
    slot = c.cells('entry', 64, {32: ('p', Ptr(kept)), 40: (64, z3.BitVecVal(1, 64))})
    text = c.cells('path text', 64)
    path = c.cells('path', 32, {0: ('p', Ptr(text))})
    out = c.cells('out', 16)
    c.args = [Ptr(this), Ptr(path), Ptr(out)]
    for k, v in dict(there=there, made=None, loaded=False, fresh=False).items():
        st0.ghost[k] = v

    def text_of(eng, st, p):
        try:
            x = eng.peekp(st, p)
        except Unsupported:
            return None
        return x.obj if isinstance(x, Ptr) else None

    def is_path(eng, st, p):
        need(st, text_of(eng, st, p) is text, 'looked up under the path asked for')

    def str_copy(eng, st, k):
        put(eng, st, k.args[0], eng.peekp(st, k.args[1]))
    str_copy.trust = 'std::string copy: the same text'
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> const&\)$'), str_copy)

    @trust('std::unordered_map: a finite map')
    def has(eng, st, k):
        c.mine(st, k.args[0])
        is_path(eng, st, k.args[1])
        r = st.ghost['there']
        return z3.If(r, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if '::count(' in k.fn else r

    @trust('std::unordered_map: a finite map')
    def entry(eng, st, k):
        c.mine(st, k.args[0])
        is_path(eng, st, k.args[1])
        if '::at(' in k.fn:
            need(st, st.ghost['there'], 'only an existing entry is taken')
        else:
            # a new entry starts with an archive that is no archive yet
            s2 = st.fork()
            s2.assume(z3.Not(s2.ghost['there']))
            b = Ptr(eng.newobj(s2, 'blank archive', [Cells(0, asz)]))
            put(eng, s2, Ptr(slot, 32), b)
            eng.poke(s2, Ptr(slot, 40), 64, z3.BitVecVal(1, 64))
            s2.setg('there', z3.BoolVal(True))
            s2.setg('fresh', True)
            st.assume(st.ghost['there'])
            return [(st, Ptr(slot, 32)), (s2, Ptr(slot, 32))]
        return Ptr(slot, 32)
    c.handle(re.compile('^' + MAP + r'(contains|count)\('), has)
    c.handle(re.compile('^(.* )?' + MAP + r'(operator\[\]|at)\('), entry)

    # iterators: the entry of the path, or the end
    last = c.cells('end', 64)

    @trust('std::unordered_map: a finite map')
    def find(eng, st, k):
        c.mine(st, k.args[0])
        is_path(eng, st, k.args[1])
        s2 = st.fork()
        s2.assume(z3.Not(s2.ghost['there']))
        st.assume(st.ghost['there'])
        return [(st, Ptr(slot)), (s2, Ptr(last))]

    @trust('std::unordered_map: a finite map')
    def the_end(eng, st, k):
        c.mine(st, k.args[0])
        return Ptr(last)

    def at(eng, st, p):
        q = eng.peekp(st, p)
        if not isinstance(q, Ptr) or q.obj not in (slot, last):
            raise Unsupported('an iterator of another table')
        return q.obj

    @trust('std::unordered_map: a finite map')
    def same(eng, st, k):
        r = z3.BoolVal(at(eng, st, k.args[0]) is at(eng, st, k.args[1]))
        return z3.Not(r) if 'operator!=' in k.fn else r

    @trust('std::unordered_map: a finite map')
    def deref(eng, st, k):
        need(st, st.ghost['held'], 'the table is used only under its lock')
        need(st, at(eng, st, k.args[0]) is slot, 'only an existing entry is used')
        return Ptr(slot)

    @trust('std::unordered_map: a finite map; a key that is there stays as it is')
    def insert(eng, st, k):
        c.mine(st, k.args[0])
        if '::insert(' in k.fn or '::insert<' in k.fn:
            is_path(eng, st, k.args[1])
            v = eng.peekp(st, k.args[1].add(32))
        else:
            is_path(eng, st, k.args[1])
            v = eng.peekp(st, k.args[2])
        if '_or_assign' not in k.fn:
            need(st, z3.Not(st.ghost['there']), 'adds only a new path')
        put(eng, st, Ptr(slot, 32), v)
        eng.poke(st, Ptr(slot, 40), 64, z3.BitVecVal(1, 64))
        st.setg('there', z3.BoolVal(True))
        return (Ptr(slot), z3.BitVecVal(1, 8))
    c.handle(re.compile('^(.* )?' + MAP + r'find\('), find)
    c.handle(re.compile('^(.* )?' + MAP + r'c?end\('), the_end)
    c.handle(re.compile(r'^(bool )?std::__detail::operator[=!]=\('), same)
    c.handle(re.compile(r'^(.* )?std::__detail::_Node_(const_)?iterator<.*>::operator(\*|->)\('), deref)
    c.handle(re.compile('^(.* )?' + MAP + r'(insert|emplace|try_emplace|insert_or_assign)(<.*>)?\('), insert)

    def construct(eng, st, k):
        need(st, text_of(eng, st, k.args[1]) is text, 'opened under the path asked for')
        need(st, z3.Not(there), 'an archive that is open is not opened again')
        need(st, st.ghost['made'] is None, 'opened once')
        need(st, st.ghost['held'], 'opened under the lock, so that nobody else opens it meanwhile')
        bad = c.thrown(st.fork())
        st.setg('made', k.args[0].obj)
        return [(st, None), bad]
    construct.trust = 'HZ_Archive(path) opens the archive or throws'
    c.handle(re.compile(r'^HZ_Archive::HZ_Archive\(std::'), construct)
    c.handle(re.compile(r'^HZ_Archive::HZ_Archive\(\)'), lambda eng, st, k: None)

    def load(eng, st, k):
        need(st, isinstance(k.args[0], Ptr) and st.ghost['made'] is not None and k.args[0].obj is st.ghost['made'], 'loads the archive just opened')
        need(st, not st.ghost['loaded'], 'loaded once')
        need(st, st.ghost['held'], 'loaded under the lock')
        bad = c.thrown(st.fork())
        st.setg('loaded', True)
        return [(st, None), bad]
    load.trust = 'HZ_Archive::load: contract verified in C23; or throws'
    c.handle(re.compile(r'^HZ_Archive::load\('), load)
    yield
    for t in c.terminals:
        c.ensure(t, 'the lock is free afterwards', z3.BoolVal(not t.ghost['held']))
        ex = t.done != 'ret'
        g = t.ghost
        sl = c.eng.peekp(t, Ptr(slot, 32))
        if ex:
            c.ensure(t, 'fails only if the archive cannot be opened', z3.Not(there))
            c.ensure(t, 'an archive that could not be loaded is not in the table', z3.Not(g['there']))
        else:
            r = c.eng.peekp(t, Ptr(out))
            c.ensure(t, 'the path is in the table', g['there'])
            c.ensure(t, 'what is returned is what the table holds', z3.BoolVal(isinstance(r, Ptr) and r.obj is sl.obj and r.c == sl.c and not r.ix))
            c.ensure(t, 'a known path gives the archive that is open', z3.Implies(there, z3.BoolVal(r.obj is kept)))
            c.ensure(t, 'a new path gives a newly opened, loaded archive', z3.Implies(z3.Not(there), z3.BoolVal(g['made'] is r.obj and g['loaded'])))


@P.unit('close', 'd_close', 'a')
def close(c):
    this, asz = common(c)
    e, need = c.eng, c.need
    n = c.sym('entries', 64)
    c.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    nodes = c.eng.new_arr(c.st, 'nodes', 1, n + 1)
    c.args = [Ptr(this)]
    c.st.ghost['done'] = c.st.ghost['cur'] = z3.BitVecVal(0, 64)
    c.eng.opts['cell_vars'] = c.eng.opts['cell_ptrs'] = True

    def index(eng, st, p):
        q = eng.peekp(st, p) if not (isinstance(p, Ptr) and p.obj is nodes) else p
        if not isinstance(q, Ptr) or q.obj is not nodes:
            raise Unsupported('an iterator of another table')
        return off(q)

    def off(q):
        r = z3.BitVecVal(q.c, 64)
        for x, s_ in q.ix:
            r = r + x * s_
        return z3.simplify(r)
    ITER = 'std::unordered_map: iteration visits every entry once'

    @trust(ITER)
    def begin(eng, st, k):
        c.mine(st, k.args[0])
        return Ptr(nodes)

    @trust(ITER)
    def end(eng, st, k):
        c.mine(st, k.args[0])
        return Ptr(nodes, 0, ((n, 1),))

    @trust(ITER)
    def same(eng, st, k):
        r = index(eng, st, k.args[0]) == index(eng, st, k.args[1])
        return z3.Not(r) if 'operator!=' in k.fn else r

    @trust(ITER)
    def entry(eng, st, k):
        i = index(eng, st, k.args[0])
        need(st, st.ghost['held'], 'the table is used only under its lock')
        need(st, z3.ULT(i, n), 'only existing entries are used')
        st.setg('cur', i)
        a = eng.newobj(st, 'an archive', [Cells(0, asz)])
        x = eng.newobj(st, 'an entry', [Cells(0, 48)])
        put(eng, st, Ptr(x, 32), Ptr(a))
        eng.poke(st, Ptr(x, 40), 64, z3.BitVecVal(1, 64))
        return Ptr(x)

    @trust(ITER)
    def step(eng, st, k):
        i = index(eng, st, k.args[0])
        need(st, st.ghost['held'], 'the table is used only under its lock')
        need(st, z3.ULT(i, n), 'steps past existing entries only')
        put(eng, st, k.args[0], Ptr(nodes, 0, ((z3.simplify(i + 1), 1),)))
        return k.args[0]

    def close_(eng, st, k):
        need(st, isinstance(k.args[0], Ptr) and k.args[0].obj.name.startswith('an archive'), 'closes archives of the table')
        need(st, st.ghost['cur'] == st.ghost['done'], 'every archive is closed, once')
        bad = c.thrown(st.fork())
        st.setg('done', st.ghost['done'] + 1)
        return [(st, None), bad]
    close_.trust = 'HZ_Archive::close: contract verified in C23; or throws'
    c.handle(re.compile('^(.* )?' + MAP + r'c?begin\('), begin)
    c.handle(re.compile('^(.* )?' + MAP + r'c?end\('), end)
    c.handle(re.compile(r'^(bool )?std::__detail::operator[=!]=\('), same)
    c.handle(re.compile(r'^(.* )?std::__detail::_Node_(const_)?iterator<.*>::operator(\*|->)\('), entry)
    c.handle(re.compile(r'^(.* )?std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\(\)'), step)
    c.handle(re.compile(r'^HZ_Archive::close\('), close_)
    c.auto(lambda L, v: {'closed': L.st.ghost['done'] == v, 'inside': z3.ULE(v, n)}, hi=n, once=lambda L: {'closed so far': z3.ULE(L.st.ghost['done'], n)})
    yield
    for t in c.terminals:
        c.ensure(t, 'the lock is free afterwards', z3.BoolVal(not t.ghost['held']))
        if t.done == 'ret':
            c.ensure(t, 'every archive was closed', t.ghost['done'] == n)


P.native = dict(src='c29.cpp', repo=['src/hzip_network/api/providers/archive_provider.cpp'], secs=3, tsecs=40, libs=['-pthread'])
