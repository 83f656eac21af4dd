"""Monitor reasoning for lock-protected state (Owicki-Gries style): the protected cells are unknown when the
mutex is taken and whenever a condition wait returns; every access needs the mutex; what a critical section
changed is judged when the mutex is given up."""
import re
import z3
from eng import Ptr, Opaque, Kill, Throw
from dom import Unsupported
from lib import trust, throws


def same(p, q):
    return isinstance(p, Ptr) and p.obj is q.obj and p.c == q.c and not p.ix


class Monitor:
    def __init__(self, c, mutex, cells, on_take=None, on_give=None, name='mutex'):
        """mutex: Ptr; cells: {name: (Ptr, bits)}; on_take(st, vals) after havoc; on_give(st, old, new) before giving up"""
        self.c, self.mutex, self.cells, self.on_take, self.on_give, self.name = c, mutex, cells, on_take, on_give, name
        e = c.eng
        c.st.ghost[name + '.held'] = False
        e.opts.setdefault('monitors', []).append(self)
        if len(e.opts['monitors']) == 1:
            e.opts['watch'] = watch
            for pat, h in HANDLERS:
                e.handlers.insert(0, (pat, h))

    def held(self, st):
        return st.ghost[self.name + '.held']

    def take(self, eng, st):
        vals = {}
        for k, (p, w) in self.cells.items():
            v = eng.fresh(st, k + '_seen', w)
            eng.poke(st, p, w, v)
            vals[k] = v
        st.setg(self.name + '.held', True)
        st.setg(self.name + '.base', Frozen(vals))
        if self.on_take:
            self.on_take(st, vals)

    def give(self, eng, st, waiting):
        old = st.ghost[self.name + '.base'].d
        new = {k: eng.peek(st, p, w) for k, (p, w) in self.cells.items()}
        if self.on_give:
            self.on_give(st, old, new, waiting)
        st.setg(self.name + '.held', False)


class Frozen:
    """ghost record of the values at the start of the critical section; re-created on every take"""

    def __init__(self, d):
        self.d = d

    def havoc(self, eng, st, k):
        m = [m for m in eng.opts['monitors'] if k == m.name + '.base'][0]
        # a loop that gives up and retakes the mutex: the section's start values are whatever they were
        return Frozen({x: eng.fresh(st, x + '_base', w) for x, (p, w) in m.cells.items()})


def find(eng, p):
    for m in eng.opts['monitors']:
        if same(p, m.mutex):
            return m


def watch(eng, st, p, wr):
    if not isinstance(p, Ptr):
        return
    for m in eng.opts['monitors']:
        for k, (q, w) in m.cells.items():
            if same(p, q) and not m.held(st):
                eng.oblig(st, z3.BoolVal(False), 'lock', label='%s accessed only with its mutex held' % k)


@trust('pthread mutex: mutual exclusion')
def h_lock(eng, st, c):
    m = find(eng, c.args[0])
    if m is None:
        raise Unsupported('unknown mutex')
    eng.oblig(st, z3.BoolVal(not m.held(st)), 'lock', label='mutex not taken twice')
    m.take(eng, st)
    return eng.dom.const(0, 32)


@trust('pthread mutex: mutual exclusion')
def h_unlock(eng, st, c):
    m = find(eng, c.args[0])
    if m is None:
        raise Unsupported('unknown mutex')
    eng.oblig(st, z3.BoolVal(bool(m.held(st))), 'lock', label='mutex held when unlocked')
    m.give(eng, st, False)
    return eng.dom.const(0, 32)


@trust('condition_variable::wait releases the mutex, may return at any time with it retaken')
def h_wait(eng, st, c):
    lk = c.args[1]
    p = eng.peekp(st, lk)
    m = find(eng, p) if isinstance(p, Ptr) else None
    if m is None:
        raise Unsupported('unknown mutex in wait')
    eng.oblig(st, z3.BoolVal(bool(m.held(st))), 'lock', label='mutex held when waiting')
    st.setg('waits', st.ghost.get('waits', 0))
    m.give(eng, st, True)
    m.take(eng, st)
    return None


def notify(kind):
    @trust('condition_variable::notify_* wakes waiters')
    def h(eng, st, c):
        f = eng.opts.get('on_notify')
        if f:
            f(eng, st, kind)
        return None
    return h


HANDLERS = [
    (re.compile(r'^__gthread_mutex_lock\(|^pthread_mutex_lock$'), h_lock),
    (re.compile(r'^__gthread_mutex_unlock\(|^pthread_mutex_unlock$'), h_unlock),
    (re.compile(r'^std::condition_variable::wait\(std::unique_lock'), h_wait),
    ('std::condition_variable::notify_all()', notify('all')),
    ('std::condition_variable::notify_one()', notify('one')),
    (re.compile(r'std::__throw_system_error'), throws('std::system_error')),
]
