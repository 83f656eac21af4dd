"""Discharge of obligations: ground instantiation of hypotheses, then a portfolio of
SMT solvers (z3 5.x, cvc5, z3 4.8), in parallel processes."""
import itertools, multiprocessing as mp, os, re, subprocess, tempfile, time
import z3

ARRSEL = z3.Z3_OP_SELECT


def walk(es, seen, onapp):
    st = list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            onapp(e)
            st.extend(e.children())
        elif z3.is_quantifier(e):
            pass


_simp = {}      # term id -> (term, simplified): terms are kept alive so that ids stay valid
_inst = {}      # (instantiation key) -> (fa, terms, simplified instance or None)


def simp(t):
    r = _simp.get(t.get_id())
    if r is None:
        r = _simp[t.get_id()] = (t, z3.simplify(t))
    return r[1]


def instance(fa, ts):
    key = (id(fa),) + tuple(t.get_id() for t in ts)
    r = _inst.get(key)
    if r is None:
        try:
            e = z3.simplify(fa.inst(ts))
            if z3.is_true(e):
                e = None
        except z3.Z3Exception:
            e = None
        r = _inst[key] = (fa, ts, e)
    return r[2]


def instantiate(hyps, fas, hints, rounds=2, cap=60, ufs=()):
    pool = {}
    seen = set()

    def add(t):
        k = t.sort().name() + str(t.sort())
        d = pool.setdefault(k, {})
        t = simp(t)
        if t.get_id() not in d:
            d[t.get_id()] = t

    def onapp(e):
        if e.decl().kind() == ARRSEL:
            add(e.arg(1))
        elif e.decl().kind() == z3.Z3_OP_STORE:
            add(e.arg(1))
        elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            for a in e.children():
                if not z3.is_array(a):
                    add(a)
    for h in hints:
        add(h)
    walk(hyps, seen, onapp)
    done = set()
    out = []
    for r in range(rounds):
        snap = {k: list(d.values())[:cap] for k, d in pool.items()}
        new = []
        for fi, fa in enumerate(fas):
            lists = [snap.get(s.name() + str(s), []) for s in fa.sorts]
            n = 0
            for ts in itertools.product(*lists):
                key = (fi,) + tuple(t.get_id() for t in ts)
                if key in done:
                    continue
                done.add(key)
                n += 1
                if n > 1500:
                    break
                e = instance(fa, ts)
                if e is not None:
                    new.append(e)
        out += new
        if r + 1 < rounds:
            walk(new, seen, onapp)
    return out


def quantified(fas):
    out = []
    for n, fa in enumerate(fas):
        vs = [z3.Const('q%d_%d' % (n, i), s) for i, s in enumerate(fa.sorts)]
        out.append(z3.ForAll(vs, fa.inst(vs)))
    return out


def to_smt2(asserts, logic=None):
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    t = s.to_smt2()
    return t


def _run_bin(cmd, text, to):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        nm = f.name
    try:
        p = subprocess.run(cmd + [nm], capture_output=True, text=True, timeout=to + 5)
        o = p.stdout.strip().split('\n')
        return o[0].strip() if o and o[0].strip() in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(nm)


def fix_cvc5(t):
    t = '(set-logic ALL)\n' + t
    return t


def solve_one(task):
    """task: (id, qf_text, quant_text or None, timeouts)"""
    oid, text, qtext, to = task
    t0 = time.time()
    model = None
    log = []

    def z3py(txt, ms, want_model=False):
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        s.set('timeout', int(ms))
        s.from_string(txt)
        r = str(s.check())
        mdl = None
        if r == 'sat' and want_model:
            try:
                m = s.model()
                mdl = {}
                for d in m.decls():
                    v = m[d]
                    if z3.is_bv_value(v) or z3.is_int_value(v):
                        mdl[d.name()] = v.as_long()
                    elif z3.is_true(v) or z3.is_false(v):
                        mdl[d.name()] = int(z3.is_true(v))
                    else:
                        mdl[d.name()] = str(v)[:200]
            except Exception:
                pass
        return r, mdl
    qf = None
    try:
        r, model = z3py(text, to['z3'] * 1000, True)
    except z3.Z3Exception as e:
        r = 'unknown'
    log.append(('z3-5', r))
    if r == 'unsat':
        return oid, 'proved', 'z3-5', time.time() - t0, None, log
    qf = r
    if to.get('opt') and not qtext:
        return oid, 'failed' if r == 'sat' else 'unknown', None, time.time() - t0, None, log
    if r == 'unknown' and not to.get('opt'):
        r = _run_bin(['cvc5', '--tlimit=%d' % (to['cvc5'] * 1000)], fix_cvc5(text), to['cvc5'])
        log.append(('cvc5', r))
        if r == 'unsat':
            return oid, 'proved', 'cvc5', time.time() - t0, None, log
        if r == 'unknown':
            r = _run_bin(['z3', '-T:%d' % to['z3old']], text, to['z3old'])
            log.append(('z3-4.8', r))
            if r == 'unsat':
                return oid, 'proved', 'z3-4.8', time.time() - t0, None, log
        qf = r
    if qtext:
        try:
            r, _ = z3py(qtext, to['q'] * 1000)
        except z3.Z3Exception:
            r = 'unknown'
        log.append(('z3-5 quantified', r))
        if r == 'unsat':
            return oid, 'proved', 'z3-5', time.time() - t0, None, log
        if r != 'sat' and not to.get('opt'):
            r = _run_bin(['cvc5', '--tlimit=%d' % (to['q'] * 1000)], fix_cvc5(qtext), to['q'])
            log.append(('cvc5 quantified', r))
            if r == 'unsat':
                return oid, 'proved', 'cvc5', time.time() - t0, None, log
    return oid, 'failed' if qf == 'sat' else 'unknown', None, time.time() - t0, model, log


QUICK = dict(z3=8, cvc5=12, z3old=8, q=10)
OPT = dict(z3=3, q=1.5, opt=True)
THOROUGH = dict(z3=40, cvc5=60, z3old=40, q=40)


def prepare(o, axioms, rounds=2):
    hyps = list(o.hyps) + list(axioms[0])
    fas = list(o.fas) + list(axioms[1])
    base = hyps + [z3.Not(o.goal)]
    inst = instantiate(base, fas, o.hints or [], rounds)
    cases = split_cases(o, base)
    if not cases:
        return [(to_smt2(base + inst), to_smt2(base + quantified(fas)) if fas else None)]
    # case split on a fixed index meeting an index that was written: equal (substituted) or different
    out = []
    for K, t in cases:
        rest = [K != t2 for k2, t2 in cases if k2 is K and t2 is not t]
        sub = [z3.simplify(z3.substitute(a, (K, t))) for a in base + inst]
        out.append((to_smt2([a for a in sub if not z3.is_true(a)]), None))
    none = [K != t for K, t in cases]
    out.append((to_smt2(base + inst + none), to_smt2(base + none + quantified(fas)) if fas else None))
    return out


def size(t):
    n, st, seen = 0, [t], set()
    while st:
        e = st.pop()
        n += 1
        st.extend(e.children())
    return n


def split_cases(o, base):
    cases = []
    for K in o.split or ():
        seen, idx = set(), {}

        def onapp(e):
            if e.decl().kind() == z3.Z3_OP_STORE and e.arg(1).sort() == K.sort():
                idx[e.arg(1).get_id()] = e.arg(1)
        walk(base, seen, onapp)
        ts = sorted(idx.values(), key=lambda t: (size(t), str(t)))
        ts = [t for t in ts if not contains(t, K)]
        if ts and K.get_id() in seen:
            small = size(ts[0])
            cases += [(K, t) for t in ts if size(t) == small][:2]
    return cases


def contains(t, K):
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() == K.get_id():
            return True
        st.extend(e.children())
    return False


_work = None


def work(k):
    """in a forked worker: instantiate and solve one obligation"""
    obs, axioms, to = _work
    o = obs[k]
    t0 = time.time()
    log, by, r = [], None, None
    for text, q in prepare(o, axioms):
        if os.environ.get('HZ_DUMP') and os.environ['HZ_DUMP'] in o.label:
            open('/tmp/dump_%d.smt2' % k, 'w').write('; %s\n%s' % (o.label, text))
        r = solve_one((k, text, q, OPT if o.opt and not to.get('force') else to))
        log += r[5]
        by = by or r[2]
        if r[1] != 'proved':
            by = None
            break
    return k, r[1], by, time.time() - t0, r[4], log


def discharge(obs, axioms=([], []), to=None, progress=None):
    global _work
    to = to or QUICK
    tasks = []
    cache = {}
    for i, o in enumerate(obs):
        if o.status:
            continue
        key = (o.goal.get_id(), tuple(h.get_id() for h in o.hyps), tuple(id(f) for f in o.fas), tuple(h.get_id() for h in o.hints or []), bool(o.opt))
        if key in cache:
            cache[key].append(i)
            continue
        cache[key] = [i]
        tasks.append(i)
    same = {v[0]: v for v in cache.values()}
    _work = (obs, axioms, to)

    def note(r):
        oid, stt, by, tm, model, log = r
        for i in same[oid]:
            o = obs[i]
            o.status, o.by, o.time, o.model = stt, by, tm if i == oid else 0.0, model
            o.n = log
    if len(tasks) <= 2:
        for k in tasks:
            note(work(k))
    else:
        with mp.get_context('fork').Pool(min(len(tasks), int(os.environ.get('HZ_JOBS', '8')))) as p:
            for r in p.imap_unordered(work, tasks, chunksize=1):
                note(r)
    _work = None
    return obs
