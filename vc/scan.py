"""Loading an archive: the file as a sequence of blocks, each entered into the archive's tables."""
import re
from core import *
from lib import trust
from arch import *
from eng import LinOff
B = z3.BoolSort()


def blocks(c, a):
    """the file on disk: Bd says where blocks start, E where the last one ends; X is any block, M any model state id"""
    c.E, c.X, c.M = c.sym('end', 64), c.sym('X', 64), c.sym('M', 64)
    c.assume(c.E < LIM, 0 <= c.X, c.X <= c.E)
    Bd, C = c.freshc('Bd', z3.ArraySort(I, B)), c.freshc('uses', z3.ArraySort(I, I))
    c.Bd, c.C = Bd, C
    V, N, E, X, M = a.V0, a.N0, c.E, c.X, c.M
    c.noM, c.noB = z3.Bool('no model state M'), z3.Bool('no blob M')

    def facts(p):
        n = Sel(V, p + 8)
        nx = p + 72 + n
        hs = Sel(V, p + 136)
        u = z3.And(Sel(V, p) == BLOB, Sel(V, p + 264 + 8 * hs) == M)
        k = Sel(V, p)
        return z3.Implies(Sel(Bd, p), z3.And(0 <= p, p <= E, Sel(N, p) == 8, Sel(C, p) >= 0, Sel(C, p) <= p, z3.Or(
            z3.And(p == E, k == END),
            z3.And(p < E, 0 <= k, k <= 3, Sel(N, p + 8) == 64, 0 <= n, nx <= E, Sel(Bd, nx), z3.Implies(p < X, nx <= X), Sel(C, nx) == Sel(C, p) + z3.If(u, 1, 0),
                   z3.Implies(z3.Or(k == MSTATE, k == BLOB), z3.And(Sel(N, p + 72) == 64, 0 <= Sel(V, p + 72), Sel(V, p + 72) < 1 << 64)),
                   z3.Implies(k == MSTATE, n >= 0xC0),
                   z3.Implies(k == BLOB, z3.And(Sel(N, p + 136) == 64, 0 <= hs, 8 * hs + 0x140 <= n, Sel(N, p + 264 + 8 * hs) == 64, 0 <= Sel(V, p + 264 + 8 * hs))),
                   z3.Implies(z3.And(k == MSTATE, c.noM), Sel(V, p + 72) != M), z3.Implies(z3.And(k == BLOB, c.noB), Sel(V, p + 72) != M),
                   # ids are unique
                   z3.Implies(z3.And(p != X, Sel(V, X) == k, z3.Or(k == MSTATE, k == BLOB)), Sel(V, p + 72) != Sel(V, X + 72))))))
    c.assume(Sel(Bd, 0), facts(z3.IntVal(0)), Sel(Bd, X), facts(X), Sel(Bd, E), facts(E), Sel(C, 0) == 0)
    return facts


def u_scan(c):
    a = Archive(c)
    a.fixed()
    a.nolog = True
    K, J = a.K, a.J
    facts = blocks(c, a)
    st = c.st
    o = c.o
    E, X, M, Bd, C = c.E, c.X, c.M, c.Bd, c.C
    V, N = a.V0, a.N0
    st.setg('pos', z3.IntVal(0))
    c.assume(a.nf0 == 0)
    m = {}
    for nm in ('mstate_map', 'blob_map', 'dep'):
        h, ob = a.map(st, nm)
        m[nm] = ob
        c.assume(*[z3.Not(Sel(h, q)) for q in (M, Sel(V, X + 72))])
    st.setg('free', z3.IntVal(0))
    st.setg('meta', z3.IntVal(0))

    @trust('bitio::stream (not in the repository): a bit-addressed file; read(n) returns the n bits at the position and advances it; seek moves it')
    def stream(eng, s, k):
        p = s.ghost['pos']
        s.assume(facts(p))
        return a.h_stream(eng, s, k)
    c.handle(re.compile(r'^bitio::stream::'), stream)

    @trust('std::vector<HZ_ArchiveFragment>: standard sequence semantics')
    def push(eng, s, k):
        p = eng.peek(s, k.args[1], 64)
        r = a.h_push(eng, s, k)
        s.setg('free', s.ghost['free'] + z3.If(p == X, 1, 0))
        return r
    c.handle(re.compile(r'std::vector<HZ_ArchiveFragment.*>::(push_back|emplace_back)'), push)

    @trust('hza_scan_metadata_segment: contract verified in "metadata block is loaded"')
    def meta(eng, s, k):
        if k.args[0].obj is not a.a:
            raise Structure('another archive')
        p, e = s.ghost['pos'], a.eof(s)
        b = p - 8
        s.assume(facts(b))
        eng.require(s, z3.And(e == p, Sel(Bd, b), Sel(V, b) == METADATA), 'precondition', label='a metadata block is loaded as one, from its start')
        s.setg('meta', s.ghost['meta'] + z3.If(b == X, 1, 0))
        bad = s.fork()
        nx = b + 72 + Sel(V, b + 8)
        s.setg('pos', nx)
        eng.poke(s, Ptr(a.a, o['eof']), 64, nx)
        return [(s, None), Throw(bad, 'ArchiveErrors::InvalidOperationException')]
    c.handle(re.compile(r'^HZ_Archive::hza_scan_metadata_segment\('), meta)
    ix = Sel(V, X + 72)

    def facts_at(s, p):
        has, val = a.has, a.val
        fs, fl, nf = a.fs(s), a.fl(s), a.nf(s)
        f, g = Sel(fs, K), Sel(fs, J)
        return {'at a block': Sel(Bd, p), 'in the file': z3.And(0 <= p, p <= E),
                'model states': z3.Implies(z3.And(X < p, Sel(V, X) == MSTATE), z3.And(Sel(has(s, 'mstate_map'), ix), Sel(val(s, 'mstate_map'), ix) == X)),
                'blobs': z3.Implies(z3.And(X < p, Sel(V, X) == BLOB), z3.And(Sel(has(s, 'blob_map'), ix), Sel(val(s, 'blob_map'), ix) == X)),
                'no other model states': z3.Implies(c.noM, z3.Not(Sel(has(s, 'mstate_map'), M))), 'no other blobs': z3.Implies(c.noB, z3.Not(Sel(has(s, 'blob_map'), M))),
                'fragments are free blocks': z3.Implies(z3.And(0 <= K, K < nf), z3.And(Sel(Bd, f), Sel(V, f) == EMPTY, Sel(fl, K) == Sel(V, f + 8), 0 <= f, f < p)),
                'fragments are distinct': z3.Implies(z3.And(0 <= J, J < K, K < nf), g < f), 'fragments below': z3.Implies(z3.And(0 <= J, J < nf), g < p),
                'free blocks are fragments': s.ghost['free'] == z3.If(z3.And(X < p, Sel(V, X) == EMPTY), 1, 0),
                'metadata': s.ghost['meta'] == z3.If(z3.And(X < p, Sel(V, X) == METADATA), 1, 0),
                'uses': z3.And(Sel(has(s, 'dep'), M) == (Sel(C, p) > 0), z3.Implies(Sel(C, p) > 0, Sel(val(s, 'dep'), M) == Sel(C, p)))}

    def inv(L):
        s = L.st
        p = s.ghost['pos']
        return {'end of file is where the stream is': a.eof(s) == p, **facts_at(s, p)}
    c.auto(lambda L, v: {}, once=inv)
    c.eng.opts['auto_meas'] = lambda L: {'left': E - L.st.ghost['pos']}
    c.args = [Ptr(a.a)]
    yield
    for t in c.terminals:
        c.ensure(t, 'nothing is written', z3.BoolVal(t.ghost['V'].eq(V)))
        if t.done != 'ret':
            c.ensure(t, 'the only error is a bad metadata block', z3.BoolVal('InvalidOperation' in str(t.exc[0])))
            continue
        c.ensure(t, 'the end of the file is found', a.eof(t) == E)
        t.assume(facts(t.ghost['pos'] - 8))
        for nm, g in facts_at(t, E).items():
            if nm not in ('at a block', 'in the file'):
                c.ensure(t, 'all blocks: ' + nm, g)


def callbacks(c, a):
    """read and seek as hza_scan hands them to the segment functions"""
    @trust('the read and seek callbacks: verified in "archive is loaded"')
    def rd(eng, s, k):
        n = eng.dom.cval(k.args[0])
        if n is None:
            raise Structure('read of variable width')
        p = s.ghost['pos']
        v = eng.fresh(s, 'read', 64)
        s.assume(v >= 0, v < 1 << n, z3.Implies(Sel(a.N0, p) == n, v == Sel(a.V0, p)))
        move(eng, s, n)
        return v

    def move(eng, s, n):
        e = a.eof(s) + n
        s.setg('pos', s.ghost['pos'] + n)
        eng.poke(s, Ptr(a.a, a.o['eof']), 64, e)

    def sk(eng, s, k):
        move(eng, s, eng.intv(s, k.args[0]))
    sk.trust = rd.trust
    c.handle('hzv_read', rd)
    c.handle('hzv_seek', sk)


def local_string(c):
    """a string built character by character"""
    c.st.setg('sA', c.freshc('empty', z3.ArraySort(I, I)))
    c.st.setg('sL', z3.IntVal(0))
    c.str = []

    @trust('std::string: empty on construction; += appends one character')
    def new(eng, s, k):
        c.str.append(k.args[0].obj)
        s.setg('sL', z3.IntVal(0))

    def app(eng, s, k):
        if k.args[0].obj not in c.str:
            raise Structure('append to another string')
        s.setg('sA', Sto(s.ghost['sA'], s.ghost['sL'], eng.intv(s, k.args[1])))
        s.setg('sL', s.ghost['sL'] + 1)
        return k.args[0]
    app.trust = new.trust
    c.handle(re.compile(r'::basic_string\(\)$'), new)
    c.handle(re.compile(r'basic_string<.*>::(push_back|operator\+=)\(char\)'), app)
    c.handle(re.compile(r'::~basic_string\('), trust('std::string destruction')(lambda eng, s, k: None))


def u_meta(c):
    c.eng.opts['alloc_elem'] = 8
    a = Archive(c)
    a.fixed()
    K = a.K
    o = c.o
    s, n, kind, pl, cnt = c.sym('sof', 64), c.sym('length', 64), c.sym('kind', 8), c.sym('path_length', 64), c.sym('blobs', 64)
    mid, ver = c.sym('mstate_id', 64), c.sym('version', 24)
    c.assume(kind <= 2, pl < 1 << 31, cnt < 1 << 31, s < LIM)
    c.assume(n == z3.If(kind == 0, 32, z3.If(kind == 1, 130 + 8 * pl + 64 * cnt, 136 + 8 * pl)))
    PA, D = c.freshc('path', z3.ArraySort(I, I)), c.freshc('ids', z3.ArraySort(I, I))
    c.assume(Sel(PA, K) >= 0, Sel(PA, K) < 256, Sel(D, K) >= 0, Sel(D, K) < 1 << 64)
    f1 = [(s, 8, METADATA), (s + 8, 64, n), (s + 72, 8, kind)]
    f2 = [(s + 80, 64, pl), (z3.And(0 <= K, K < pl), s + 144 + 8 * K, 8, Sel(PA, K))]
    f3 = [(s + 144 + 8 * pl, 58, cnt), (z3.And(0 <= K, K < cnt), s + 202 + 8 * pl + 64 * K, 64, Sel(D, K))]
    cond = lambda g, fs: [(z3.And(g, *f[:-3]), *f[-3:]) for f in fs]
    a.has_layout(f1 + cond(kind == 0, [(s + 80, 24, ver)]) + cond(kind != 0, f2) + cond(kind == 1, f3) + cond(kind == 2, [(s + 144 + 8 * pl, 64, mid)]))
    ih0, io = a.map(c.st, 'inv_aux', 1)
    i0 = c.arr(io)
    c.st.setg('pos', s + 8)
    c.put(Ptr(a.a, o['eof']), 64, s + 8)
    callbacks(c, a)
    local_string(c)
    c.st.setg('files', ())
    c.st.setg('aux', ())
    for name, T in (('file_map', 'HZ_ArchiveFile'), ('aux_map', 'unsigned long')):
        @trust('HZ_ArchiveTrie: a map from paths to entries')
        def st_(eng, t, k, name=name):
            p, q, v = k.args[:3]
            if p.obj is not a.a or p.c != o[name] or q.obj not in c.str:
                raise Structure('entry in another map or with another path')
            if name == 'aux_map':
                t.setg('aux', t.ghost['aux'] + ((v, k.args[3]),))
            else:
                t.setg('files', t.ghost['files'] + ((eng.peekp(t, v.add(o['f_ids'])), eng.peek(t, v.add(o['f_n']), 64), eng.peek(t, v.add(o['ef_sof']), 64)),))
        c.handle(re.compile(r'^HZ_ArchiveTrie<HZ_ArchiveEntry<%s> ?>::set\(' % T), st_)
    c.args = [Ptr(a.a)]

    def t(L, v):
        x = L.st
        pos = x.ghost['pos']
        d = {'path range': v <= pl, 'ids range': v <= cnt, 'eof': a.eof(x) == pos, 'path position': pos == s + 144 + 8 * v, 'ids position': pos == s + 202 + 8 * pl + 64 * v,
             'path length': x.ghost['sL'] == v, 'path': z3.Implies(z3.And(0 <= K, K < v), Sel(x.ghost['sA'], K) == Sel(PA, K))}
        for i, b in enumerate(c.blocks(x)):
            d['ids %d' % i] = z3.Implies(z3.And(0 <= K, K < v), Sel(c.arr(b, st=x), K) == Sel(D, K))
        return d
    c.auto(t, hi=pl + cnt)
    yield
    for t_ in c.terminals:
        fl, ax = t_.ghost['files'], t_.ghost['aux']
        if t_.done != 'ret':
            c.ensure(t_, 'the only error is another version', z3.And(z3.BoolVal('InvalidOperation' in str(t_.exc[0])), kind == 0, ver != 0x100))
            continue
        c.ensure(t_, 'stops at the end of the block', z3.And(t_.ghost['pos'] == s + 72 + n, a.eof(t_) == s + 72 + n))
        c.ensure(t_, 'another version is refused', z3.Implies(kind == 0, ver == 0x100))
        c.ensure(t_, 'one entry for one block', z3.And(kind == (1 if fl else 2 if ax else 0), z3.BoolVal(len(fl) + len(ax) <= 1)))
        if fl or ax:
            c.ensure(t_, 'under its path', z3.And(t_.ghost['sL'] == pl, z3.Implies(z3.And(0 <= K, K < pl), Sel(t_.ghost['sA'], K) == Sel(PA, K))))
            c.ensure(t_, 'entry points at the block', (fl or ax)[0][-1] == s)
        if fl:
            q, m, _ = fl[0]
            ok = isinstance(q, Ptr) and q.obj in c.blocks(t_) and q.c == 0 and not q.ix
            c.ensure(t_, 'blob ids in a block of their own', z3.BoolVal(ok))
            c.ensure(t_, 'as many blob ids as written', m == cnt)
            if ok:
                c.ensure(t_, 'blob ids as written', z3.Implies(z3.And(0 <= K, K < cnt), Sel(c.arr(q.obj, st=t_), K) == Sel(D, K)))
        if ax:
            c.ensure(t_, 'model state id as written', ax[0][0] == mid)
            c.ensure(t_, 'the model state is marked as having a path', Sel(a.has(t_, 'inv_aux'), mid))
        a.map_kept(t_, 'inv_aux', ih0, i0, mid)


SCAN = (('metadata block is loaded', 'd_scan_meta', u_meta, {}), ('archive is loaded', 'd_scan', u_scan, {}),)


def u_init(c):
    a = Archive(c)
    a.fixed()
    a.nolog = True
    c.assume(a.nf0 == 0)
    a.extra = lambda st: [z3.IntVal(x) for x in (0, 8, 72, 80, 104)]
    c.args = [Ptr(a.a)]
    yield
    for t in c.terminals:
        if not returns(c, t):
            continue
        a.layout(t, 'new archive', [(z3.IntVal(0), 8, METADATA), (z3.IntVal(8), 64, 32), (z3.IntVal(72), 8, 0), (z3.IntVal(80), 24, 0x100), (z3.IntVal(104), 8, END)])
        c.ensure(t, 'loading starts at the first block', t.ghost['pos'] == 0)
        c.ensure(t, 'it reaches the file', z3.BoolVal('flushed' in t.ghost))


def u_close(c):
    a = start(c, False)
    a.extra = lambda st: [a.eof0]
    c.st.setg('region', ((a.eof0, a.eof0 + 8),))
    c.st.setg('posted', z3.IntVal(0))

    @trust('sem_post: gives the archive lock back')
    def post(eng, s, k):
        s.setg('posted', s.ghost['posted'] + 1)
        eng.require(s, z3.BoolVal('flushed' in s.ghost), 'precondition', label='the file is written out before the lock is given back')
        return eng.dom.const(0, 32)
    c.handle('sem_post', post)
    c.args = [Ptr(a.a)]
    yield
    for t in c.terminals:
        if not returns(c, t):
            continue
        c.ensure(t, 'the end is marked', a.tok(t, a.eof0, 8, END))
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'the lock is given back once', t.ghost['posted'] == 1)


def u_create(c):
    c.eng.opts['alloc_elem'] = 8
    import strs
    strs.install(c)
    a = Archive(c)
    a.fixed()
    o = c.o
    p = path_(c)
    tr = files(c, a)
    K = a.K
    cnt = c.sym('blobs', 64)
    c.assume(cnt < 1 << 31)
    c.handle(re.compile(r'^hz_validate_path\('), h_validate)
    bl = c.eng.newobj(c.st, 'blobs', [])
    Rid = c.freshc('id of blob', z3.ArraySort(I, I))
    c.assume(0 <= Sel(Rid, K), Sel(Rid, K) < 1 << 64)
    arg = c.cells('arg', 16, {0: ('p', Ptr(bl)), 8: (64, cnt)})
    c.st.setg('written', z3.IntVal(0))
    c.st.setg('entered', z3.IntVal(0))

    @trust('hza_write_blob: contract verified in C23')
    def wb(eng, s, k):
        q = k.args[1]
        w = s.ghost['written']
        if k.args[0].obj is not a.a or not isinstance(q, Ptr) or q.obj is not bl:
            raise Structure('writes another blob')
        off = eng.intv(s, LinOff(q.c, q.ix))
        eng.require(s, z3.And(w < cnt, off == w * o['bsize']), 'precondition', label='writes each blob once, in order')
        bad = s.fork()
        s.setg('written', w + 1)
        return [(s, Sel(Rid, w)), Throw(bad, 'ArchiveErrors::MstateNotFoundException')]
    c.handle(re.compile(r'^HZ_Archive::hza_write_blob\('), wb)

    @trust('hza_create_metadata_file_entry: contract verified in C24')
    def en(eng, s, k):
        q = k.args[2]
        if k.args[0].obj is not a.a or k.args[1].obj is not c.path:
            raise Structure('enters another path')
        ids, m = eng.peekp(s, q.add(o['f_ids'])), eng.peek(s, q.add(o['f_n']), 64)
        ok = isinstance(ids, Ptr) and ids.obj in c.blocks(s) and ids.c == 0 and not ids.ix
        eng.require(s, z3.And(z3.BoolVal(ok), m == cnt, s.ghost['written'] == cnt), 'precondition', label='the entry lists as many ids as blobs, all written')
        if ok:
            eng.require(s, z3.Implies(z3.And(0 <= K, K < cnt), Sel(c.arr(ids.obj, st=s), K) == Sel(Rid, K)), 'precondition', label='the entry lists the ids of the blobs in order')
        s.setg('entered', s.ghost['entered'] + 1)
    c.handle(re.compile(r'^HZ_Archive::hza_create_metadata_file_entry\('), en)
    c.args = [Ptr(a.a), p, Ptr(arg), cnt]

    def t(L, v):
        d = {'in range': v <= cnt, 'so many written': L.st.ghost['written'] == v}
        for i, b in enumerate(c.blocks(L.st)):
            d['ids %d' % i] = z3.Implies(z3.And(0 <= K, K < v), Sel(c.arr(b, st=L.st), K) == Sel(Rid, K))
        return d
    c.auto(t, hi=cnt)
    yield
    for t_ in c.terminals:
        g = t_.ghost
        if t_.done != 'ret':
            c.ensure(t_, 'an error leaves no entry', g['entered'] == 0)
            if 'InvalidOperation' in str(t_.exc[0]):
                c.ensure(t_, 'an existing file is refused before anything is written', z3.And(tr.has0, g['written'] == 0))
            continue
        c.ensure(t_, 'there was no such file', z3.Not(tr.has0))
        c.ensure(t_, 'the file is entered once, with every blob', z3.And(g['entered'] == 1, g['written'] == cnt))


SCAN += (('new archive is written', 'd_init', u_init, {}), ('archive is closed', 'd_close', u_close, {}), ('file is created', 'd_create', u_create, {}))


def register_scan(P, *names):
    for nm, drv, body, opts in SCAN:
        if nm in names:
            P.unit(nm, drv, 'a', mode='int', opts=dict(opts))(body)
