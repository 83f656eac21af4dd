"""Units (function under contract), properties, running, evidence."""
import importlib, itertools, json, os, re, sys, time, traceback
import z3
import eng as E
from eng import Engine, State, Ptr, NULL, FnPtr, Opaque, Obj, Cells, Arr, PtrArr, OState, Forall, forall, Loop, Throw, Structure, Kill, Oblig, short
from dom import Unsupported
from ir import IRError
import build, solve
from build import ExtractError

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Ctx:
    """what a unit body sees"""

    def __init__(self, eng, st, unit):
        self.eng, self.st, self.unit = eng, st, unit
        self.args = []
        self.terminals = []
        self.inputs = {}
        self.lemmas = []

    # ---- setup
    def sym(self, name, w=64):
        v = self.eng.sym(self.st, name, w)
        self.inputs[name] = v
        return v

    def const(self, v, w=64):
        return self.eng.dom.const(v, w)

    def assume(self, *cs):
        self.st.assume(*cs)

    def array(self, name, elem, n):
        return self.eng.new_arr(self.st, name, elem, n)

    def cells(self, name, size, init=None, kind='heap', fill=None):
        o = self.eng.newobj(self.st, name, [Cells(0, size, fill=fill)], kind)
        for off, (w, v) in (init or {}).items():
            self.put(Ptr(o, off), w, v)
        return o

    def put(self, p, w, v):
        """w: bits or 'p'"""
        if w == 'p':
            os, ri, r = self.eng.access(self.st, p, 8, 'init')
            self.eng._store(self.st, os, ri, r, p, 8, v, False)
        else:
            if isinstance(v, int):
                v = self.eng.dom.const(v, w)
            self.eng.poke(self.st, p, w, v)

    def arr(self, o, inner=0, st=None):
        return self.eng.arr(st or self.st, o, inner)

    def blocks(self, st):
        """blocks of symbolic size allocated by the code so far, in order"""
        return [o for o in self.eng.allocs if o.oid in st.mem and st.mem[o.oid].alive]

    def loop(self, name, inv, **k):
        l = Loop(name, inv, **k)
        self.eng.opts.setdefault('loops', []).append(l)
        return l

    def auto(self, templates, hi=None, once=None):
        """template invariants for every loop that has no invariant of its own"""
        self.eng.opts['auto'] = templates
        self.eng.opts['auto0'] = once
        self.eng.opts['auto_hi'] = hi

    def handle(self, pat, fn):
        self.eng.handlers.insert(0, (pat, fn))

    def fa(self, body, n=1, name=''):
        return Forall([self.eng.dom.ix] * n, body, name)

    # ---- after
    def ensure(self, t, name, goal, hints=()):
        self.eng.oblig(t, goal, 'postcondition', site='exit', label='postcondition %s' % name, hints=hints)

    def lemma(self, name, goal, *hyps, hints=()):
        st = State()
        st.assume(*hyps)
        self.eng.oblig(st, goal, 'lemma', site='lemma', label='lemma %s' % name, hints=hints)

    def peek(self, t, p, w):
        return self.eng.peek(t, p, w)

    def fresh(self, name, w):
        return self.eng.fresh(self.st, name, w)

    def freshc(self, name, sort):
        return self.eng.freshc(name, sort)


class Unit:
    def __init__(self, prop, name, fn, mod, body, mode='bv', nsw=True, handlers=(), opts=None, min_paths=1, what=''):
        self.prop, self.name, self.fn, self.mod, self.body, self.mode = prop, name, fn, mod, body, mode
        self.nsw, self.handlers, self.opts = nsw, handlers, opts or {}
        self.min_paths, self.what = min_paths, what


class Property:
    def __init__(self, pid, title, modules=None, units=None, native=None, level='proof', assumptions=(), bounded=()):
        self.pid, self.title = pid, title
        self.modules = modules or {}
        self.units = units if units is not None else []
        self.native = native
        self.level = level
        self.assumptions = list(assumptions)
        self.bounded = list(bounded)

    def unit(self, name, fn, mod, **k):
        def deco(body):
            self.units.append(Unit(self.pid, name, fn, mod, body, **k))
            return body
        return deco

    def lemma_unit(self, name, **k):
        def deco(body):
            self.units.append(Unit(self.pid, name, None, None, body, **k))
            return body
        return deco


def findfn(mods, want):
    """want: exact demangled name, compiled regex or callable"""
    out = []
    for m in mods:
        for f in m.fns.values():
            if isinstance(want, str) and f.dem == want or hasattr(want, 'search') and want.search(f.dem) or callable(want) and want(f):
                out.append(f)
    if not out:
        raise Structure('function not found: %s' % (want if isinstance(want, str) else getattr(want, 'pattern', want)))
    # C1/C2 constructors: same body; prefer one with a body that is not a mere forwarder
    out.sort(key=lambda f: -len(f.lines))
    return out[0]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obligs = []
        self.error = None
        self.kind = None
        self.paths = 0
        self.loops = {}
        self.executed = set()
        self.called = set()
        self.canary = []
        self.secs = 0
        self.fn = None
        self.inputs = {}

    @property
    def failed(self):
        return [o for o in self.obligs if o.status != 'proved']

    @property
    def ok(self):
        return self.error is None and not self.failed and not [c for c in self.canary if c[1] == 'vacuous']


HINTS = os.path.join(build.VERIF, 'hints')


def load_hints(unit):
    """candidates that did not survive when the proof was last done: a starting point only, every obligation is discharged anew"""
    try:
        d = json.load(open(os.path.join(HINTS, unit.prop + '.json')))
        return {tuple(x) for x in d.get(unit.name, [])} or None
    except (OSError, ValueError):
        return None


def run_once(unit, mods, lib, binding, to, deadline, dropped=None):
    dropped = set(dropped or ())
    for rnd in range(25):
        res = run_pass(unit, mods, lib, binding, to, deadline, dropped)
        res.rounds = rnd + 1
        opt = [o for o in res.obligs if o.opt]
        if not opt:
            break
        # refuted candidates go first; those merely undecided get another try without them
        bad = {o.opt for o in opt if o.status == 'failed' and len(o.opt) == 2}
        if not bad:
            und = [o for o in opt if o.status == 'unknown']
            if und:
                for o in und:
                    o.status = None
                solve.discharge(und, (res.eng.axioms, []), dict(to, force=True))
            bad = {o.opt for o in und if o.status != 'proved' and len(o.opt) == 2}
        if os.environ.get('HZ_V') == '2':
            for o in opt:
                if o.status != 'proved':
                    print('      houdini: round %d drops %s %s [%s] %s %s' % (rnd, o.opt, o.label, o.status, o.n, {k: v for k, v in (o.model or {}).items() if isinstance(v, int)}))
        if bad and time.time() < deadline:
            dropped |= bad
            continue
        if bad:
            res.error = 'invariant inference ran out of time'
            res.kind = 'structure'
            res.obligs = [o for o in res.obligs if not o.opt]
        # termination: one surviving measure per loop is enough
        badm = {o.opt for o in opt if o.status != 'proved'}
        for lp in {o.opt[0] for o in opt if len(o.opt) == 3}:
            allm = {o.opt for o in opt if len(o.opt) == 3 and o.opt[0] == lp}
            if allm - badm:
                res.obligs = [o for o in res.obligs if not (o.opt and o.opt in badm and o.opt[0] == lp)]
                dropped |= {o for o in allm if o in badm}
        break
    res.dropped = dropped
    return res


def run_pass(unit, mods, lib, binding, to, deadline, dropped):
    res = Result(unit)
    eng = Engine(mods, unit.mode, unit.name, list(unit.handlers) + list(lib), unit.nsw, dict(unit.opts))
    eng.opts['deadline'] = deadline
    eng.opts['loops'] = list(eng.opts.get('loops', []))
    eng.binding = binding
    eng.dropped = dropped
    eng.opts['auto_offs'] = getattr(unit, 'offs', (0, 1, -1))
    st = State()
    c = Ctx(eng, st, unit)
    eng.opts['u'] = c
    res.eng = eng
    g = unit.body(c)
    t0 = time.time()
    pre = 0
    if g is not None and hasattr(g, '__next__'):
        try:
            next(g)
        except StopIteration:
            g = None
    if unit.fn is not None:
        fn = findfn(mods, unit.fn) if not getattr(c, 'fn', None) else c.fn
        res.fn = fn
        c.pre_pc = list(st.pc)
        c.pre_fa = list(st.fa)
        c.old = st.fork()
        r = eng.check(st, z3.BoolVal(True), 3000)
        res.canary.append(('precondition of %s satisfiable' % unit.name, 'vacuous' if r == 'unsat' else 'ok'))
        if len(fn.params) != len(c.args):
            raise Structure('%s takes %d arguments, the contract gives %d' % (short(fn.dem), len(fn.params), len(c.args)))
        eng.start(st, fn, c.args)
        c.terminals = eng.run(st)
        res.paths = len(c.terminals)
    if g is not None:
        try:
            next(g)
        except StopIteration:
            pass
    res.obligs = eng.obligs
    res.loops = dict(eng.loop_fired)
    res.loops_seen = list(eng.loops_seen)
    res.executed, res.called = eng.executed, eng.called
    if unit.fn is not None:
        reach = 0
        for t in c.terminals[:12]:
            if eng.check(t, z3.BoolVal(True), 2000) != 'unsat':
                reach += 1
        res.canary.append(('an exit of %s is reachable (%d paths)' % (unit.name, res.paths),
                           'ok' if reach and res.paths >= unit.min_paths else 'vacuous'))
        for nm, (a, b) in res.loops.items():
            if b == 0:
                res.canary.append(('loop %s body reaches its back edge' % nm, 'vacuous'))
            else:
                res.canary.append(('loop %s body reaches its back edge' % nm, 'ok'))
        for sp in eng.opts['loops']:
            if not sp.taken:
                raise Structure('invariant %s is attached to no loop' % sp.name)
    if not res.obligs:
        res.canary.append(('obligations generated', 'vacuous'))
    solve.discharge(res.obligs, (eng.axioms, getattr(c, 'axioms', [])), to)
    res.cands = dict(eng.bind_cands)
    res.inputs = c.inputs
    res.auto = bool(eng.opts.get('auto'))
    return res


def run_unit(unit, mods, lib, tier, budget=200):
    t0 = time.time()
    to = solve.QUICK if tier == 'quick' else solve.THOROUGH
    deadline = t0 + budget
    best = None
    tried = 0
    hint = load_hints(unit)
    queue = ([{'hint': 0, 'offs': 0}] if hint else []) + [{'offs': 0}, {}]
    seen = set()
    err = None
    while queue and tried < 14 and time.time() < deadline:
        if best is not None and os.path.exists(os.environ.get('HZ_FOUND', '/nonexistent/x')):
            break           # the real code already failed on an input: one attempt at naming the obligation is enough
        b = queue.pop(0)
        k = tuple(sorted(b.items(), key=str))
        if not b and best is not None and not best.auto:
            continue
        if k in seen:
            continue
        seen.add(k)
        tried += 1
        try:
            unit.offs = (0,) if 'offs' in b else (0, 1, -1)
            r = run_once(unit, mods, lib, {k: v for k, v in b.items() if k not in ('offs', 'hint')}, to if tried <= 2 or 'offs' in b else dict(to, z3=4, cvc5=3, z3old=2, q=3), deadline, hint if 'hint' in b else None)
        except (Unsupported, Structure, IRError, ExtractError, KeyError, IndexError, AttributeError, TypeError, RecursionError, z3.Z3Exception, AssertionError, ValueError, NotImplementedError) as e:
            r = Result(unit)
            r.error = '%s: %s' % (type(e).__name__, e)
            r.kind = 'structure'
            r.trace = traceback.format_exc()
            r.cands = {}
            r.auto = True
            if os.environ.get('HZ_TRACE'):
                traceback.print_exc()
        if best is None or (r.error is None and (best.error is not None or len(r.failed) < len(best.failed))):
            best = r
        if r.ok:
            best = r
            break
        for key, n in sorted(getattr(r, 'cands', {}).items(), key=str):
            for j in range(1, n):
                nb = dict(b)
                nb[key] = j
                queue.append(nb)
    best.secs = time.time() - t0
    best.tried = tried
    return best
