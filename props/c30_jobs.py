from core import *
from eng import Throw, FnPtr, Cells
from lib import trust
import itertools
import re
P = Property('C30', 'Codec jobs')
P.modules = {'a': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <thread>
#include <hzip_codec/processor/processor.h>
#include <hzip_codec/errors/processor.h>
#include <hzip_codec/codec_provider.h>
extern "C" void hzv_code(int what, const void *in, void *out);
// a thread runs its function here and now: schedules are not part of this claim
namespace std { struct hz_thread { template<typename F, typename ...A> hz_thread(F f, const A &...a) { f(a...); } void detach() {} void join() {} }; }
#define thread hz_thread
#include <hzip_codec/processor/processor.cpp>
#undef thread
extern "C" {
rainman::ptr<HZ_Blob> x_compress(void *, const rainman::ptr<HZ_Blob> &b) { rainman::ptr<HZ_Blob> r((HZ_Blob *) nullptr, 1); hzv_code(0, &b, &r); return r; }
rainman::ptr<HZ_Blob> x_decompress(void *, const rainman::ptr<HZ_Blob> &b) { rainman::ptr<HZ_Blob> r((HZ_Blob *) nullptr, 1); hzv_code(1, &b, &r); return r; }
rainman::ptr<HZ_MState> x_train(void *, const rainman::ptr<HZ_Blob> &b) { rainman::ptr<HZ_MState> r((HZ_MState *) nullptr, 1); hzv_code(2, &b, &r); return r; }
using J = HZ_CodecJob; using S = HZ_JobStub; using O = HZ_Job; using B = HZ_Blob; using R = HZ_Processor;
void d_keep(void **o) { o[0] = (void *) x_compress; o[1] = (void *) x_decompress; o[2] = (void *) x_train; }
void d_loc(uint64_t *o) {
  int i = 0;
  o[i++] = sizeof(J); o[i++] = offsetof(J, blob); o[i++] = offsetof(J, archive); o[i++] = offsetof(J, algorithm); o[i++] = sizeof(J::algorithm); o[i++] = offsetof(J, job_type); o[i++] = sizeof(J::job_type);
  o[i++] = offsetof(J, mstate_addr); o[i++] = offsetof(J, blob_id_callback); o[i++] = offsetof(J, blob_callback);
  o[i++] = sizeof(S); o[i++] = offsetof(S, on_completed); o[i++] = offsetof(S, on_error); o[i++] = offsetof(S, on_success);
  o[i++] = sizeof(O); o[i++] = offsetof(O, type); o[i++] = sizeof(O::type); o[i++] = offsetof(O, codec); o[i++] = offsetof(O, stub);
  o[i++] = sizeof(B); o[i++] = offsetof(B, mstate); o[i++] = offsetof(B, data); o[i++] = offsetof(B, mstate_id); o[i++] = offsetof(B, status);
  o[i++] = sizeof(R); o[i++] = offsetof(R, _semaphore); o[i++] = sizeof(HZ_Archive);
  using OA = rainman::option<rainman::ptr<HZ_Archive>>; using OS = rainman::option<std::string>;
  o[i++] = offsetof(OA, some); o[i++] = offsetof(OA, v); o[i++] = offsetof(OS, some); o[i++] = offsetof(OS, v);
}
void d_run(R *p, rainman::ptr<HZ_Job> *j) { p->run(*j); }
}
''', flags=['-fno-access-control'], keep=re.compile(r'basic_string<.*>::(~)?basic_string|std::operator\+|to_string|::operator=\(.*basic_string|::append|::assign|std::mutex|unique_lock|scoped_lock|lock_guard|std::unordered_map|std::__throw|std::function<|CodecProvider::'))}
NAMES = ['jsz', 'blob', 'archive', 'alg', 'algsz', 'jt', 'jtsz', 'addr', 'idcb', 'blobcb', 'ssz', 'completed', 'error', 'success', 'osz', 'type', 'typesz', 'codec', 'stub',
         'bsz', 'mstate', 'data', 'mid', 'status', 'psz', 'sem', 'asz', 'a_some', 'a_v', 's_some', 's_v']
ENCODE, DECODE, TRAIN = 0, 1, 2


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {n: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, n in enumerate(NAMES)}


def put(eng, st, p, v):
    os, ri, r = eng.access(st, p, 8, 'put')
    eng._store(st, os, ri, r, p, 8, v, False)


def expected(job, arch, addr, cb, idcb, exists, status, hs, he, hc, bad, early=False):
    """what has to happen, in order; the event bad fails and ends the job; early: the codec is looked up before the model state"""
    out = []

    class Stop(Exception):
        pass

    def ev(x):
        if x == bad:
            out.append(x + '!')
            raise Stop()
        out.append(x)

    def refuse():
        raise Stop()

    def codec(here):
        # where the codec is looked up matters only if that fails
        if here and bad == 'codec':
            ev('codec')
    ok = True
    try:
        if job == ENCODE:
            if addr:
                if not arch:
                    refuse()
                codec(early)
                ev('inject')
            codec(not (early and addr))
            ev('compress')
            ev('evaluate')
            if not addr:
                if arch:
                    ev('keep model')
                elif not cb:
                    refuse()
            if arch:
                ev('write')
                if idcb:
                    ev('tell id')
            if cb:
                ev('tell blob')
        elif job == DECODE:
            if not arch and not cb:
                refuse()
            if addr and status:
                if not arch:
                    refuse()
                codec(early)
                ev('inject')
            codec(not (early and addr and status))
            ev('decompress')
            if cb:
                ev('tell blob')
        elif job == TRAIN:
            if not addr or not arch:
                refuse()
            if exists:
                codec(early)
                ev('inject')
            codec(not (early and exists))
            ev('train')
            if exists:
                ev('uninstall')
            ev('install')
    except Stop:
        ok = False
    if ok and hs:
        out.append('success')
    if not ok and he:
        out.append('error')
    if hc:
        out.append('completed')
    return out


@P.unit('a job', 'd_run', 'a')
def job(c):
    e, st0 = c.eng, c.st
    o = locs(c)
    b = {n: z3.Bool(n) for n in ('archive given', 'address given', 'blob callback', 'id callback', 'model state exists', 'blob is compressed', 'success callback', 'error callback', 'completion callback')}
    jt, ty, alg = c.sym('job type', 8 * o['jtsz']), c.sym('type', 8 * o['typesz']), c.sym('algorithm', 8 * o['algsz'])
    c.assume(ty == 0)
    arch = c.cells('archive', o['asz'])
    text = c.cells('address text', 64)
    data, model = c.cells('data', 64), c.cells('model', 64)
    one = z3.BitVecVal(1, 64)
    mid = c.sym('model id', 64)
    bit = lambda x: z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    blob = c.cells('blob', o['bsz'], {o['mstate']: ('p', Ptr(model)), o['mstate'] + 8: (64, one), o['data']: ('p', Ptr(data)), o['data'] + 8: (64, c.sym('size', 64)),
                                      o['mid']: (64, mid), o['status']: (8, bit(b['blob is compressed']))})
    out = c.cells('result', o['bsz'], {o['mstate']: ('p', Ptr(c.cells('result model', 64))), o['mstate'] + 8: (64, one), o['mid']: (64, c.sym('result id', 64))})
    trained = c.cells('trained', 64)
    cj = c.cells('codec job', o['jsz'], {o['blob']: ('p', Ptr(blob)), o['blob'] + 8: (64, one), o['archive'] + o['a_some']: (8, bit(b['archive given'])), o['archive'] + o['a_v']: ('p', Ptr(arch)), o['archive'] + o['a_v'] + 8: (64, one),
                                         o['alg']: (8 * o['algsz'], alg), o['jt']: (8 * o['jtsz'], jt), o['addr'] + o['s_some']: (8, bit(b['address given'])), o['addr'] + o['s_v']: ('p', Ptr(text))})
    stub = c.cells('stub', o['ssz'])
    jo = c.cells('job', o['osz'], {o['type']: (8 * o['typesz'], ty), o['codec']: ('p', Ptr(cj)), o['codec'] + 8: (64, one), o['stub']: ('p', Ptr(stub)), o['stub'] + 8: (64, one)})
    jp = c.cells('job pointer', 16, {0: ('p', Ptr(jo)), 8: (64, one)})
    proc = c.cells('processor', o['psz'])
    vt = c.cells('codec vtable', 24, {0: ('p', FnPtr('x_compress')), 8: ('p', FnPtr('x_decompress')), 16: ('p', FnPtr('x_train'))})
    codec = c.cells('codec', 8, {0: ('p', Ptr(vt))})
    c.args = [Ptr(proc), Ptr(jp)]
    st0.ghost['events'] = ''
    st0.ghost['permits'] = 0
    st0.ghost['id'] = z3.BitVecVal(0, 64)
    what = c.cells('what', 64)
    xvt = c.cells('vtable', 64, {16: ('p', FnPtr('what()'))})
    c.handle(re.compile(r'^what\(\)$'), lambda eng, st, k: Ptr(what))

    def thrown(st):
        return Throw(st, 'std::runtime_error', Ptr(e.newobj(st, 'exception', [Cells(0, 64, {0: (8, Ptr(xvt))})])))

    def need(st, cond, w):
        e.oblig(st, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)), 'job', label=w)

    def ev(st, x):
        need(st, st.ghost['permits'] == 1, 'works only while it holds a permit')
        st.setg('events', st.ghost['events'] + x + ';')

    def may_fail(st, x, val=None):
        s = st.fork()
        ev(s, x + '!')
        ev(st, x)
        return [(st, val), thrown(s)]

    def pointee(eng, st, p):
        q = eng.peekp(st, p)
        return q.obj if isinstance(q, Ptr) and not q.ix and q.c == 0 else None

    def isobj(p, ob, off=0):
        return isinstance(p, Ptr) and p.obj is ob and p.c == off and not p.ix

    # strings: a copy refers to the same text
    def str_copy(eng, st, k):
        put(eng, st, k.args[0], eng.peekp(st, k.args[1]))
    str_copy.trust = 'std::string copy: the same text'
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> (const)?&&?\)$'), str_copy)

    def is_addr(eng, st, p):
        try:
            q = eng.peekp(st, p)
        except Unsupported:
            q = None
        need(st, isinstance(q, Ptr) and q.obj is text, 'the model state address is that of the job')

    @trust('Semaphore::acquire: contract verified in C20')
    def acquire(eng, st, k):
        need(st, isobj(k.args[0], proc, o['sem']), 'the permits of the processor')
        need(st, st.ghost['permits'] == 0, 'one permit per job')
        st.setg('permits', 1)

    @trust('Semaphore::release: contract verified in C20')
    def release(eng, st, k):
        need(st, isobj(k.args[0], proc, o['sem']), 'the permits of the processor')
        need(st, st.ghost['permits'] == 1, 'gives back the permit it holds')
        st.setg('permits', 2)
    c.handle(re.compile(r'^Semaphore::acquire\('), acquire)
    c.handle(re.compile(r'^Semaphore::release\('), release)

    # callbacks
    slots = {(cj, o['idcb']): ('id callback', 'tell id'), (cj, o['blobcb']): ('blob callback', 'tell blob'), (stub, o['completed']): ('completion callback', 'completed'),
             (stub, o['error']): ('error callback', 'error'), (stub, o['success']): ('success callback', 'success')}

    def slot(p):
        if not isinstance(p, Ptr) or (p.obj, p.c) not in slots:
            raise Unsupported('another function object')
        return slots[(p.obj, p.c)]

    @trust('std::function: empty, or one function')
    def given(eng, st, k):
        r = b[slot(k.args[0])[0]]
        return z3.Not(r) if 'operator==' in k.fn else r

    @trust('std::function: empty, or one function; on_success, on_error and on_completed do not throw')
    def call(eng, st, k):
        flag, name = slot(k.args[0])
        need(st, b[flag], 'calls only callbacks that are there')
        if name == 'tell id':
            need(st, k.args[1] == st.ghost['id'], 'reports the id the archive gave')
            return may_fail(st, name)
        if name == 'tell blob':
            need(st, isinstance(k.args[1], Ptr) and (isobj(k.args[1], out) or pointee_(eng, st, k.args[1]) is out), 'hands out the blob of the codec')
            return may_fail(st, name)
        ev(st, name)

    def pointee_(eng, st, p):
        try:
            return pointee(eng, st, p)
        except Unsupported:
            return None
    c.handle(re.compile(r'std::operator[=!]=<.*std::function<|^std::function<.*>::operator bool'), given)
    c.handle(re.compile(r'std::function<.*>::operator\(\)\('), call)

    # codec and archive
    @trust('the codec table gives the codec of an algorithm, or fails')
    def provider(eng, st, k):
        need(st, k.args[0] == alg, 'the codec of the algorithm of the job')
        return may_fail(st, 'codec', Ptr(codec))
    c.handle(re.compile(r'CodecProvider::algorithm_to_codec\('), provider)

    def code(eng, st, k):
        w = eng.dom.cval(k.args[0])
        need(st, pointee(eng, st, k.args[1]) is blob, 'codes the blob of the job')
        s = st.fork()
        r = may_fail(st, ('compress', 'decompress', 'train')[w])
        put(eng, st, k.args[2], Ptr(trained if w == 2 else out))
        return r
    code.trust = 'codecs: round trips verified in C17, C18; or they throw'
    c.handle('hzv_code', code)

    @trust('HZ_Blob::evaluate: contract verified in C18')
    def evaluate(eng, st, k):
        need(st, isobj(k.args[0], out), 'evaluates the compressed blob')
        need(st, pointee(eng, st, k.args[1]) is data, 'against the original data')
        ev(st, 'evaluate')
    c.handle(re.compile(r'^HZ_Blob::evaluate\('), evaluate)

    def inject(eng, st, k):
        need(st, isobj(k.args[0], arch), 'the archive of the job')
        need(st, b['archive given'], 'an archive only if the job has one')
        if 'basic_string' in k.fn:
            is_addr(eng, st, k.args[1])
            need(st, pointee(eng, st, k.args[2]) is blob, 'the model state at the address goes into the blob of the job')
            s = st.fork()
            r = may_fail(st, 'inject')
            eng.poke(st, Ptr(blob, o['mid']), 64, mid_in)
            return r
        need(st, pointee(eng, st, k.args[2]) is out, 'the model state goes with the compressed blob')
        q, w = eng.peekp(st, k.args[1]), eng.peekp(st, Ptr(out, o['mstate']))
        need(st, isinstance(q, Ptr) and q.obj is w.obj, 'its own model state is kept')
        eng.poke(st, Ptr(out, o['mid']), 64, own_id)
        return may_fail(st, 'keep model')
    mid_in, own_id, bid = (c.sym(n, 64) for n in ('injected id', 'own id', 'blob id'))
    inject.trust = write_trust = 'the archive: contracts verified in C23 to C25; or it throws'
    c.handle(re.compile(r'^HZ_Archive::inject_mstate\('), inject)

    def write(eng, st, k):
        need(st, isobj(k.args[0], arch), 'the archive of the job')
        need(st, pointee(eng, st, k.args[1]) is out, 'stores the compressed blob')
        need(st, eng.peek(st, Ptr(out, o['mid']), 64) == z3.If(b['address given'], mid_in, own_id), 'stored with the id of the model state it was made with')
        st.setg('id', bid)
        return may_fail(st, 'write', bid)
    write.trust = write_trust
    c.handle(re.compile(r'^HZ_Archive::write_blob\('), write)

    @trust(write_trust)
    def exists(eng, st, k):
        need(st, isobj(k.args[0], arch), 'the archive of the job')
        is_addr(eng, st, k.args[1])
        return b['model state exists']
    c.handle(re.compile(r'^HZ_Archive::check_mstate_exists\('), exists)

    def uninstall(eng, st, k):
        need(st, isobj(k.args[0], arch), 'the archive of the job')
        is_addr(eng, st, k.args[1])
        return may_fail(st, 'uninstall')
    uninstall.trust = write_trust
    c.handle(re.compile(r'^HZ_Archive::uninstall_mstate\('), uninstall)

    def install(eng, st, k):
        need(st, isobj(k.args[0], arch), 'the archive of the job')
        is_addr(eng, st, k.args[1])
        need(st, pointee(eng, st, k.args[2]) is trained, 'installs the trained model state')
        return may_fail(st, 'install')
    install.trust = write_trust
    c.handle(re.compile(r'^HZ_Archive::install_mstate\('), install)
    c.handle(re.compile(r'^HZ_MState::HZ_MState\(|^std::unordered_map<std::.*>::(~)?unordered_map\('), lambda eng, st, k: None)
    c.auto(lambda L, v: {})
    yield
    names = list(b)
    seen = set()
    for t in c.terminals:
        c.ensure(t, 'no exception leaves the job', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'the permit is taken and given back', z3.BoolVal(t.ghost['permits'] == 2))
        got = [x for x in t.ghost['events'].split(';') if x and x != 'codec']
        bad = [x[:-1] for x in got if x.endswith('!')]
        good = []
        for kind in (ENCODE, DECODE, TRAIN, 3):
            for v in itertools.product((False, True), repeat=len(names)):
                if any(expected(kind, *v, bad[0] if bad else None, early) == got for early in (False, True)):
                    k = z3.UGT(jt, 2) if kind == 3 else jt == kind
                    good.append(z3.And(k, *[x if y else z3.Not(x) for x, y in zip(b.values(), v)]))
        seen.add(tuple(got))
        c.ensure(t, 'what happens is what the job asks for: %s' % ', '.join(got), z3.Or(good) if good else z3.BoolVal(False))


P.native = dict(src='c30.cpp', repo=['src/hzip_codec/processor/processor.cpp', 'src/hzip_core/utils/semaphore.cpp'], secs=4, tsecs=40, libs=['-pthread'])
