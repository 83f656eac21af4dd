#!/usr/bin/env python3-vt
"""check.py <property> : decide one property for the current /repo tree."""
import concurrent.futures as cf, importlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props'))
sys.setrecursionlimit(20000)
import z3
import core, build, solve, lib
from core import TIER, SEED, run_unit, Result
from build import VERIF, REPO, BUILD, compile_ll, ExtractError

MODFILE = {}


def load(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, 'props'))):
        if f.lower().startswith(pid.lower() + '_') or f.lower() == pid.lower() + '.py':
            return importlib.import_module(f[:-3]).P
    raise SystemExit('no such property ' + pid)


def build_native(nat, outdir):
    """compile the replay harness against /repo's sources"""
    exe = os.path.join(outdir, 'native')
    srcs = [os.path.join(VERIF, 'replay', nat['src'])] + [os.path.join(REPO, s) for s in nat.get('repo', [])]
    inc = ['-I' + os.path.join(VERIF, 'replay'), '-I' + os.path.join(VERIF, 'stubs/native'), '-I' + os.path.join(REPO, 'src'),
           '-I' + os.path.join(REPO, 'other/loguru/include'), '-I' + os.path.join(REPO, 'other/argparse/include'), '-I' + os.path.join(REPO, 'other/loguru/include/loguru')]
    flags = ['-std=c++20', '-O1', '-g1', '-fno-access-control', '-w', '-D_GLIBCXX_ASSERTIONS', '-DLOGURU_STUB'] + nat.get('san', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment']) + list(nat.get('flags', []))
    for fn, parts in nat.get('gen', {}).items():     # text generated from the current tree
        with open(os.path.join(outdir, fn), 'w') as f:
            for q in parts:
                try:
                    f.write(build.kernel_text(q) + '\n')
                except build.ExtractError as e:
                    return None, str(e)
        inc.insert(0, '-I' + outdir)
    objs = []
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(outdir, 'o%d.o' % i)
        objs.append(o)
        jobs.append(['clang++-18'] + flags + inc + ['-c', s, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex:
        for p in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
            if p.returncode:
                return None, p.stderr[-3000:]
    p = subprocess.run(['clang++-18'] + flags + objs + ['-o', exe, '-lpthread'] + nat.get('libs', []), capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-3000:]
    return exe, None


def run_native(nat, exe, outdir, secs, hints):
    hf = os.path.join(outdir, 'hints')
    with open(hf, 'w') as f:
        for h in hints:
            f.write(' '.join('%s=%s' % kv for kv in h.items() if isinstance(kv[1], int)) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', TSAN_OPTIONS='exitcode=96:halt_on_error=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98')
    work = os.path.join(outdir, 'scratch')
    os.makedirs(work, exist_ok=True)
    lf = os.path.join(outdir, 'last')
    cmd = [exe, str(SEED), str(secs), hf, lf]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 3 + 40, env=env, cwd=work, errors='replace')
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        err, rc = 'no answer within %d s: the code under test does not terminate on the last case announced' % (secs * 3 + 40), 97
    r = dict(rc=rc, out=out[-4000:], err=err[-4000:], cases=0, distinct=0, samples=[], fail=None, cmd=' '.join(cmd))
    for l in out.split('\n'):
        m = re.match(r'STATS cases=(\d+) distinct=(\d+)', l)
        if m:
            r['cases'], r['distinct'] = int(m.group(1)), int(m.group(2))
        elif l.startswith('SAMPLE '):
            r['samples'].append(l[7:300])
        elif l.startswith('FAIL '):
            r['fail'] = l[5:2000]
    if rc == 0 and r['fail'] is None:
        r['verdict'] = 'pass'
    elif r['fail'] is not None:
        r['verdict'] = 'fail'
    elif rc in (99, 98, 97, 96) or rc < 0:
        last = open(lf, 'rb').read().split(b'\0')[0].decode(errors='replace') if os.path.exists(lf) else '?'
        head = [l for l in err.split('\n') if 'ERROR' in l or 'ThreadSanitizer' in l or 'runtime error' in l or 'no answer' in l][:2]
        r['fail'] = 'the code crashed or hung (%s) on: %s' % ('; '.join(head)[:300] or 'signal %d' % -rc, last)
        r['verdict'] = 'fail'
    else:
        r['verdict'] = 'error'
    return r


def known(pid):
    out = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Fn:
    def __init__(self, dem):
        self.dem = dem


class N:
    def __init__(self, n):
        self.nquick = n


def job(u, mods, moderr, total, t0, conn):
    """one unit in its own process"""
    os.setpgrp()
    ms = u.mod if isinstance(u.mod, (list, tuple)) else [u.mod] if u.mod else []
    bad = [k for k in ms if k in moderr]
    if bad:
        r = Result(u)
        r.error = 'extraction: ' + moderr[bad[0]][-1500:]
        r.kind = 'structure'
    else:
        left = total - 180 - (time.time() - t0)
        try:
            r = run_unit(u, [mods[k] for k in ms], lib.BASE + lib.STRING, TIER, budget=max(20, min(left, 400 if TIER == 'quick' else 1500)))
        except Exception as e:
            r = Result(u)
            r.error = '%s: %s' % (type(e).__name__, e)
            r.kind = 'structure'
    for o in r.obligs:
        o.goal = z3.simplify(o.goal).sexpr()[:1500] if o.status != 'proved' else ''
        o.hyps = o.fas = o.hints = o.canary = o.split = None
        o.opt = bool(o.opt)
        o.path = None
    out = Result(None)
    out.obligs, out.error, out.kind, out.paths, out.loops = r.obligs, r.error, r.kind, r.paths, dict(r.loops)
    out.executed = {str(x) for x in r.executed}
    out.called = {(str(a), str(b)) for a, b in r.called}
    out.canary, out.secs = list(r.canary), r.secs
    out.fn = Fn(r.fn.dem) if r.fn is not None else None
    out.eng = N(getattr(getattr(r, 'eng', None), 'nquick', 0))
    out.dropped = sorted(map(list, getattr(r, 'dropped', ()))) if r.ok and getattr(r, 'auto', False) else []
    conn.send(out)
    conn.close()
    os._exit(0)


def run_units(P, mods, moderr, total, t0, early=None):
    """early: future of a first native run; once it has found a failing input, the proof only gets a little longer to name the obligation"""
    shortened = False
    import multiprocessing as mp
    units = [u for u in P.units if not os.environ.get('HZ_UNIT') or os.environ['HZ_UNIT'] in u.name]
    W = int(os.environ.get('HZ_WORKERS', '4'))
    W = max(1, min(W, len(units)))
    os.environ['HZ_JOBS'] = str(max(2, 8 // W))
    ctx = mp.get_context('fork')
    res = [None] * len(units)
    todo = list(range(len(units)))
    run = {}
    while todo or run:
        while todo and len(run) < W:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=job, args=(units[i], mods, moderr, total, t0, b))
            p.start()
            b.close()
            run[i] = (p, a)
        from multiprocessing.connection import wait
        ready = wait([a for p, a in run.values()], timeout=5)
        if early and not shortened and early.done():
            shortened = True
            if (early.result() or {}).get('verdict') == 'fail':
                total = min(total, time.time() - t0 + 60)
        late = time.time() - t0 > total
        for i, (p, a) in list(run.items()):
            if a in ready or late:
                try:
                    r = a.recv() if a in ready else None
                except EOFError:
                    r = None
                if r is None:
                    r = Result(None)
                    r.error = 'time budget exhausted' if late else 'verification worker ended without a result'
                    r.kind = 'structure'
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        p.kill()
                r.unit = units[i]
                res[i] = r
                p.join(5)
                del run[i]
                if os.environ.get('HZ_V'):
                    print('  unit %-38s %s paths=%d obligations=%d %.1fs %s' % (r.unit.name, 'ok' if r.ok else 'NOT OK', r.paths, len(r.obligs), r.secs, r.error or ''))
                    for o in r.failed:
                        print('      FAILED %s @ %s [%s] %s' % (o.label, o.site, o.status, o.n))
                        if os.environ.get('HZ_V') == '2':
                            print('        goal', o.goal[:600])
                            print('        model', {k: v for k, v in (o.model or {}).items() if isinstance(v, int)})
                    for c in r.canary:
                        if c[1] != 'ok':
                            print('      VACUOUS', c)
    if os.environ.get('HZ_SAVE'):
        os.makedirs(core.HINTS, exist_ok=True)
        json.dump({r.unit.name: r.dropped for r in res if r.ok and r.dropped}, open(os.path.join(core.HINTS, P.pid + '.json'), 'w'), indent=0)
    return res


def main(pid):
    t0 = time.time()
    P = load(pid)
    outdir = os.path.join(BUILD, '%s-%d' % (pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    total = 640 if TIER == 'quick' else 6000
    mods, infos, moderr = {}, [], {}
    native_err = None
    with cf.ThreadPoolExecutor(8) as ex:
        fut = {k: ex.submit(compile_ll, k, **dict(dict(keep=lib.KEEP), **v)) for k, v in P.modules.items()}
        fnat = ex.submit(build_native, P.native, outdir) if P.native else None
        for k, f in fut.items():
            try:
                mods[k], info = f.result()
                infos.append(info)
            except (ExtractError, Exception) as e:
                moderr[k] = str(e)
        exe = None
        if fnat:
            exe, native_err = fnat.result()
    early = None
    if exe:
        import threading
        os.makedirs(os.path.join(outdir, 'early'), exist_ok=True)
        early = cf.Future()
        os.environ['HZ_FOUND'] = os.path.join(outdir, 'found')

        def first():
            try:
                n = run_native(P.native, exe, os.path.join(outdir, 'early'), P.native.get('secs', 4), [])
                if n['verdict'] == 'fail':
                    open(os.environ['HZ_FOUND'], 'w').close()
            except Exception as e:
                n = dict(rc=1, out='', err=str(e), cases=0, distinct=0, samples=[], fail=None, cmd='', verdict='error')
            early.set_result(n)
        threading.Thread(target=first, daemon=True).start()
    results = run_units(P, mods, moderr, total, t0, early)
    allob = [o for r in results for o in r.obligs]
    failed = [(r, o) for r in results for o in r.failed]
    errors = [r for r in results if r.error]
    vac = [(r, c) for r in results for c in r.canary if c[1] == 'vacuous']
    hints = []
    for r, o in failed:
        if o.model:
            h = {k: v for k, v in o.model.items() if isinstance(v, int) and '!' not in k}
            if h and h not in hints:
                hints.append(h)
    nat = None
    if P.native and exe:
        secs = P.native.get('secs', 4) if TIER == 'quick' else P.native.get('tsecs', 60)
        if failed or errors or vac:
            secs = max(secs, P.native.get('fsecs', 25))
        nat = early.result()
        if nat['verdict'] != 'fail' and (secs > P.native.get('secs', 4) or hints):
            nat = run_native(P.native, exe, outdir, secs, hints)
        if os.environ.get('HZ_V'):
            print('  native', nat['verdict'], nat['cases'], nat['distinct'], nat['fail'] or '', nat['err'][-800:] if nat['verdict'] != 'pass' else '')
    elif P.native and os.environ.get('HZ_V'):
        print('  native build failed', native_err)
    viol = None
    suffix = ''
    kf = known(pid)
    kfhit = []
    if nat and nat['verdict'] == 'fail':
        viol = 'the real code fails on a concrete input: ' + nat['fail']
    elif failed:
        viol = 'undischarged obligation(s): ' + '; '.join('%s/%s @ %s [%s]' % (r.unit.name, o.label, o.site, o.status) for r, o in failed[:12])
        suffix = ' no-failing-input-found'
    for l in (nat or {}).get('out', '').split('\n'):
        m = re.match(r'KNOWN (\S+) (.*)', l)
        if m:
            if any(k == m.group(1) for k, _ in kf):
                if m.group(1) not in [x[0] for x in kfhit]:
                    kfhit.append((m.group(1), m.group(2)))
            elif viol is None or suffix:
                viol = 'the real code fails on a concrete input: %s %s' % (m.group(1), m.group(2))
                suffix = ''
    proved_units = [r for r in results if r.ok]
    backends = {}
    for o in allob:
        if o.status == 'proved':
            backends[o.by] = backends.get(o.by, 0) + 1
    fns = {}
    for r in results:
        if r.fn is not None:
            fns[r.unit.name] = dict(function=r.fn.dem, mode=r.unit.mode, obligations=len(r.obligs), discharged=sum(o.status == 'proved' for o in r.obligs),
                                    paths=r.paths, loops={k: v[1] for k, v in r.loops.items()}, status='proved' if r.ok else ('undecided: ' + (r.error or 'obligation failed')),
                                    inlined=sorted(core.short(x) for x in r.executed if x != r.fn.dem)[:40])
        else:
            fns[r.unit.name] = dict(lemma=True, obligations=len(r.obligs), discharged=sum(o.status == 'proved' for o in r.obligs),
                                    status='proved' if r.ok else ('undecided: ' + (r.error or 'obligation failed')))
    trusted = sorted({t if isinstance(t, str) else str(t) for r in results for _, t in r.called})
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P.level, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
              assumptions=P.assumptions,
              coverage=dict(obligations=len(allob), discharged=sum(o.status == 'proved' for o in allob),
                            checker_cmd='python3-vt vc/check.py %s (clang-18 -> LLVM IR -> VC generator -> %s)' % (pid, ', '.join('%s: %d' % kv for kv in sorted(backends.items()))),
                            trusted_base=['clang-18 front end and opt sroa/instsimplify/dce/always-inline', 'vc/*.py (IR semantics, VC generation)', 'z3 5.3 / cvc5 1.1.2 / z3 4.8'] + trusted,
                            functions_under_contract=fns, backends=backends, solver_seconds=round(sum(o.time or 0 for o in allob), 2),
                            quick_checks=sum(getattr(getattr(r, 'eng', None), 'nquick', 0) for r in results),
                            vacuity=[dict(unit=r.unit.name, check=c[0], result=c[1]) for r in results for c in r.canary],
                            undecided=[dict(unit=r.unit.name, reason=(r.error or '')[:600]) for r in errors],
                            extraction=[dict(source=i['source'], seconds=i['secs'], drops='nothing (IR of the file as compiled)') for i in infos],
                            samples=[dict(obligation=o.label, unit=o.unit, site=o.site, by=o.by, seconds=round(o.time or 0, 3)) for o in allob if o.by != 'simplifier'][:12] or
                                    [dict(obligation=o.label, unit=o.unit, site=o.site, by=o.by) for o in allob[:8]]))
    if nat:
        ev['coverage']['bounded_native'] = dict(label='bounded: executes the real code; supports replay and stands in for functions outside the proof; never counted as proved',
                                                covers=P.bounded, evaluations=nat['cases'], distinct_nontrivial=nat['distinct'], samples=nat['samples'][:6], verdict=nat['verdict'])
        ev['coverage']['evaluations'] = nat['cases']
        ev['coverage']['distinct_nontrivial'] = nat['distinct']
    elif P.native:
        ev['coverage']['bounded_native'] = dict(verdict='not built', reason=(native_err or '')[-600:])
    if P.level == 'exploration':
        ev['coverage'].setdefault('evaluations', 0)
        ev['coverage'].setdefault('rule', P.native.get('rule', '') if P.native else '')
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k, d in kfhit:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, d))
    rc = 0
    if viol:
        rd = os.path.join(BUILD, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%d.txt' % (pid, os.getpid()))
        with open(rp, 'w') as f:
            f.write('property %s: %s\n%s\n\n' % (pid, P.title, viol))
            for r, o in failed:
                f.write('failed obligation: unit %s, %s at %s -> %s\n  solver: %s\n  goal: %s\n' % (r.unit.name, o.label, o.site, o.status, o.n, o.goal))
                if o.model:
                    f.write('  counterexample (verifier): %s\n' % {k: v for k, v in o.model.items() if isinstance(v, int)})
            for r in errors:
                f.write('undecided: unit %s: %s\n' % (r.unit.name, r.error))
            if nat:
                f.write('\nnative replay: harness replay/%s, seed %d, verdict %s\n  %s\n%s\n%s\n' % (P.native['src'], SEED, nat['verdict'], nat['fail'], nat['out'], nat['err']))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, suffix))
        print('  ' + viol[:600])
        rc = 1
    else:
        st = 'all %d obligations discharged' % len(allob) if not errors and not vac else 'UNDECIDED by proof in %d unit(s)' % (len(errors) + len(vac))
        if errors or vac:
            for r in errors:
                print('  undecided: %s: %s' % (r.unit.name, r.error.strip().split('\n')[-1][:300]))
            for r, c in vac:
                print('  vacuity check failed: %s: %s' % (r.unit.name, c[0]))
            if not nat or nat['verdict'] not in ('pass',):
                print('ERROR property=%s no answer (%s)' % (pid, native_err or (nat or {}).get('err', '')[-300:] or 'no stand-in'))
                rc = 2
            else:
                st += '; bounded stand-in passed'
        print('%s property=%s %s; %d functions; native %s cases=%s (%.1fs)' % ('OK' if rc == 0 else 'NOANSWER', pid, st, sum(1 for r in results if r.fn), nat['verdict'] if nat else '-', nat['cases'] if nat else 0, time.time() - t0))
    shutil.rmtree(outdir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main(sys.argv[1])
