from core import *
import re
from mon import Monitor
P = Property('C20', 'Counting semaphore')
P.modules = {'s': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/utils/semaphore.h>
#include <hzip_core/utils/semaphore.cpp>
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(Semaphore, _mutex); o[1] = offsetof(Semaphore, _cv); o[2] = offsetof(Semaphore, _count); o[3] = sizeof(Semaphore); }
void d_new(Semaphore *s, uint64_t n) { new (s) Semaphore(n); }
void d_acquire(Semaphore *s) { s->acquire(); }
void d_release(Semaphore *s) { s->release(); }
}
''', flags=['-fno-access-control'], keep=re.compile('basic_string'))}


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 32)], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(4)]


def setup(c, want):
    mo, co, no, sz = locs(c)
    s = c.cells('sem', sz, {no: (64, c.sym('count', 64))})
    c.count = Ptr(s, no)
    c.args = [Ptr(s)]
    st = c.st
    st.ghost['change'] = z3.BitVecVal(0, 64)      # net change of the permit count by this call so far
    st.ghost['owed'] = z3.BitVecVal(0, 64)        # 1: permits appeared and no waiter has been told since
    e = c.eng

    st.ghost['told'] = False                      # since the mutex was last taken
    st.ghost['kind'] = ''
    st.ghost['before'] = z3.BitVecVal(0, 64)      # permits there were before this call added one

    def take(st, v):
        st.setg('told', False)
        # a count at the maximum of the type is outside the claim
        st.assume(v['count'] != z3.BitVecVal(2**64 - 1, 64))

    def give(st, old, new, waiting):
        d = new['count'] - old['count']
        ch = st.ghost['change']
        if want == -1:
            e.oblig(st, z3.Or(d == 0, z3.And(d == z3.BitVecVal(-1, 64), old['count'] != 0, ch == 0)), 'lock', label='a critical section takes nothing, or one available permit once')
        else:
            e.oblig(st, z3.Or(d == 0, z3.And(d == 1, ch == 0)), 'lock', label='a critical section adds nothing, or one permit once')
        if waiting:
            # whoever waits must be waiting for a permit: none is available
            e.oblig(st, new['count'] == 0, 'lock', label='waits only while no permit is available')
        st.setg('change', z3.simplify(ch + d))
        if not st.ghost['told']:
            st.setg('owed', z3.If(d == 1, z3.BitVecVal(1, 64), st.ghost['owed']))
        st.setg('before', z3.If(d == 1, old['count'], st.ghost['before']))
    c.mon = Monitor(c, Ptr(s, mo), {'count': (c.count, 64)}, take, give)

    def on_notify(eng, st, kind):
        st.setg('told', True)
        st.setg('kind', kind if st.ghost['kind'] in (kind, '') else 'one')
        st.setg('owed', z3.BitVecVal(0, 64))
    e.opts['on_notify'] = on_notify
    c.auto(lambda L, v: {}, once=lambda L: {
        'nothing taken yet': L.st.ghost['change'] == 0, 'nobody to tell': L.st.ghost['owed'] == 0,
        'section unchanged': c.eng.peek(L.st, c.count, 64) == L.st.ghost['mutex.base'].d['count'] if 'mutex.base' in L.st.ghost else True})


def finish(c, want):
    kinds = {t.ghost['kind'] for t in c.terminals}
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'mutex released', z3.BoolVal(not c.mon.held(t)))
        c.ensure(t, 'exactly one permit %s' % ('taken' if want < 0 else 'added'), t.ghost['change'] == z3.BitVecVal(want, 64))
        if want > 0:
            # nobody can be asleep while permits are available if whoever added the first one woke everybody
            quiet = t.ghost['before'] != 0 if 'all' in kinds and 'one' not in kinds else z3.BoolVal(False)
            c.ensure(t, 'a waiter is woken for the new permit', z3.Or(t.ghost['owed'] == 0, quiet))


@P.unit('acquire', 'd_acquire', 's')
def acquire(c):
    # waiting need not end: no termination claim (the measure is not part of this contract)
    c.eng.opts['no_termination'] = True
    setup(c, -1)
    yield
    finish(c, -1)


@P.unit('release', 'd_release', 's')
def release(c):
    setup(c, 1)
    yield
    finish(c, 1)


@P.unit('construction', 'd_new', 's')
def construct(c):
    mo, co, no, sz = locs(c)
    n = c.sym('n', 64)
    s = c.cells('sem', sz)
    c.args = [Ptr(s), n]
    c.handle(re.compile(r'^std::(condition_variable|mutex)::|pthread_mutex_init'), lambda e, st, k: None)
    yield
    for t in c.terminals:
        c.ensure(t, 'starts with the given number of permits', c.peek(t, Ptr(s, no), 64) == n)
P.native = dict(src='c20.cpp', repo=['src/hzip_core/utils/semaphore.cpp'], secs=2, tsecs=40, san=['-fsanitize=thread'])
