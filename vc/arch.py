"""The archive file under contract: bit stream tokens, free list and id maps as ghost state.
A token is what one stream write puts at a bit position: N[q] is its width (0: none starts here), V[q] its value."""
import re
from core import *
from lib import trust, KEEP
from eng import LinOff
Sel, Sto = z3.Select, z3.Store
I = z3.IntSort()
AKEEP = re.compile(KEEP.pattern + r'|basic_string<.*>::(operator\+=|push_back)|std::vector<HZ_ArchiveFragment.*>::(push_back|emplace_back|_M_erase|erase|_M_realloc_insert)')
TEXT = r'''
#include <cstdint>
#include <cstddef>
#include <hzip_storage/archive/archive.cpp>
#include <hzip_core/blob/blob.cpp>
using A = HZ_Archive; using M = HZ_ArchiveMetadata; using PS = rainman::ptr<bitio::stream>; using OP = rainman::option<uint64_t>; using P8 = rainman::ptr<uint8_t>; using P64 = rainman::ptr<uint64_t>;
using FR = std::vector<HZ_ArchiveFragment>;
extern "C" {
uint64_t hzv_read(uint64_t n); void hzv_seek(uint64_t n);
void d_loc(uint64_t *o) {
  int i = 0; uint64_t m = offsetof(A, metadata);
  o[i++] = sizeof(A); o[i++] = m + offsetof(M, fragments); o[i++] = m + offsetof(M, eof); o[i++] = m + offsetof(M, mstate_map); o[i++] = m + offsetof(M, blob_map);
  o[i++] = m + offsetof(M, mstate_inv_aux_map); o[i++] = m + offsetof(M, dep_counter); o[i++] = m + offsetof(M, file_map); o[i++] = m + offsetof(M, mstate_aux_map); o[i++] = m + offsetof(M, version);
  o[i++] = offsetof(A, stream) + offsetof(PS, p); o[i++] = offsetof(A, stream) + offsetof(PS, n); o[i++] = sizeof(bitio::stream);
  o[i++] = offsetof(OP, some); o[i++] = offsetof(OP, v); o[i++] = sizeof(OP);
  o[i++] = offsetof(HZ_MState, data) + offsetof(P8, p); o[i++] = offsetof(HZ_MState, data) + offsetof(P8, n); o[i++] = offsetof(HZ_MState, alg); o[i++] = sizeof(HZ_MState);
  o[i++] = offsetof(HZ_Blob, header) + offsetof(HZ_BlobHeader, raw) + offsetof(P8, p); o[i++] = offsetof(HZ_Blob, header) + offsetof(HZ_BlobHeader, raw) + offsetof(P8, n);
  o[i++] = offsetof(HZ_Blob, data) + offsetof(P8, p); o[i++] = offsetof(HZ_Blob, data) + offsetof(P8, n); o[i++] = offsetof(HZ_Blob, size); o[i++] = offsetof(HZ_Blob, o_size); o[i++] = offsetof(HZ_Blob, mstate_id);
  o[i++] = offsetof(HZ_Blob, mstate); o[i++] = sizeof(HZ_Blob); o[i++] = offsetof(HZ_ArchiveFile, blob_ids) + offsetof(P64, p); o[i++] = offsetof(HZ_ArchiveFile, blob_ids) + offsetof(P64, n); o[i++] = sizeof(HZ_ArchiveFile);
  o[i++] = offsetof(HZ_ArchiveEntry<HZ_ArchiveFile>, sof); o[i++] = sizeof(HZ_ArchiveEntry<HZ_ArchiveFile>); o[i++] = offsetof(HZ_ArchiveEntry<uint64_t>, sof); o[i++] = sizeof(HZ_ArchiveEntry<uint64_t>);
  o[i++] = offsetof(A, mutex); }
void d_alloc(A *a, uint64_t n, OP *out) { new(out) OP(a->hza_alloc_fragment(n)); }
uint64_t d_wm(A *a, rainman::ptr<HZ_MState> *m) { return a->hza_write_mstate(*m); }
void d_rm(A *a, uint64_t id, rainman::ptr<HZ_MState> *out) { new(out) rainman::ptr<HZ_MState>(a->hza_read_mstate(id)); }
void d_xm(A *a, uint64_t id) { a->hza_rm_mstate(id); }
uint64_t d_wb(A *a, HZ_Blob *b) { return a->hza_write_blob(*b); }
void d_rb(A *a, uint64_t id, rainman::ptr<HZ_Blob> *out) { new(out) rainman::ptr<HZ_Blob>(a->hza_read_blob(id)); }
void d_xb(A *a, uint64_t id) { a->hza_rm_blob(id); }
void d_entry(A *a, const std::string *p, const HZ_ArchiveFile *f) { a->hza_create_metadata_file_entry(*p, *f); }
void d_install(A *a, const std::string *p, rainman::ptr<HZ_MState> *m) { a->install_mstate(*p, *m); }
void d_uninstall(A *a, const std::string *p) { a->uninstall_mstate(*p); }
void d_remove(A *a, const std::string *p) { a->remove_file(*p); }
bool d_deps(A *a, uint64_t id) { return a->hza_check_mstate_deps(id); }
void d_inc(A *a, uint64_t id) { a->hza_increment_dep(id); }
void d_dec(A *a, uint64_t id) { a->hza_decrement_dep(id); }
void d_init(A *a) { a->hza_init(); }
void d_create(A *a, const std::string *p, rainman::ptr<HZ_Blob> *b, uint64_t n) { a->create_file(*p, *b, n); }
void d_close(A *a) { a->close(); }
void d_scan(A *a) { a->hza_scan(); }
static std::function<uint64_t(uint64_t)> rd() { return [](uint64_t n) { return hzv_read(n); }; }
static std::function<void(uint64_t)> sk() { return [](uint64_t n) { hzv_seek(n); }; }
void d_scan_meta(A *a) { auto r = rd(); auto s = sk(); a->hza_scan_metadata_segment(r, s); }
void d_scan_blob(A *a) { auto r = rd(); auto s = sk(); a->hza_scan_blob_segment(r, s); }
void d_scan_mstate(A *a) { auto r = rd(); auto s = sk(); a->hza_scan_mstate_segment(r, s); }
void d_scan_frag(A *a) { auto r = rd(); auto s = sk(); a->hza_scan_fragment(r, s); }
}
'''
NAMES = ['sizeof', 'frags', 'eof', 'mstate_map', 'blob_map', 'inv_aux', 'dep', 'file_map', 'aux_map', 'version', 'stream', 'stream_n', 'ssize', 'some', 'inner', 'osize',
         'm_data', 'm_n', 'm_alg', 'msize', 'b_raw', 'b_rawn', 'b_data', 'b_n', 'b_size', 'b_osize', 'b_mid', 'b_mstate', 'bsize', 'f_ids', 'f_n', 'fsize', 'ef_sof', 'efsize', 'em_sof', 'emsize', 'mutex']
EMPTY, METADATA, BLOB, MSTATE, END = 0, 1, 2, 3, 255
LIM = 1 << 60
MODULE = dict(text=TEXT, flags=['-fno-access-control'], keep=AKEEP)


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


def disj(a, la, b, lb):
    return z3.Or(a + la <= b, b + lb <= a)


class Archive:
    """an archive object in an arbitrary state"""

    def __init__(self, c, vec='ghost'):
        self.c, self.eng = c, c.eng
        st = c.st
        c.o = self.o = o = locs(c)
        self.eof0 = c.sym('eof', 64)
        c.assume(self.eof0 < LIM)
        self.stream = c.cells('stream', o['ssize'])
        self.a = c.cells('archive', o['sizeof'], {o['eof']: (64, self.eof0), o['stream']: ('p', Ptr(self.stream)), o['stream_n']: (64, 1)})
        # free list
        self.nf0 = c.sym('fragments', 64)
        c.assume(self.nf0 < 1 << 32)
        self.vec = vec
        self.quant = vec == 'mem'       # otherwise facts are stated where they are needed: at the watched positions and fragments J, K
        self.extra = lambda st: []
        self.nolog = False
        if vec == 'mem':
            self.fo = self.eng.new_arr(st, 'frag', {'S': 16, 0: 8, 8: 8}, z3.IntVal(1 << 40))
            self.setvec(st, self.nf0)
            self.FS0, self.FL0 = c.arr(self.fo, 0), c.arr(self.fo, 8)
        else:
            self.FS0, self.FL0 = (c.freshc(n, z3.ArraySort(I, I)) for n in ('FS', 'FL'))
            st.setg('FS', self.FS0)
            st.setg('FL', self.FL0)
            st.setg('nf', self.nf0)
        # an arbitrary piece of live data: one token
        self.q0, self.w0 = c.sym('live_at', 64), c.sym('live_bits', 64)
        c.assume(self.w0 >= 1, self.w0 < LIM, self.q0 + self.w0 <= self.eof0)
        # the stream
        st.setg('pos', c.sym('pos0', 64))
        self.V0, self.N0 = c.freshc('V', z3.ArraySort(I, I)), c.freshc('N', z3.ArraySort(I, I))
        st.setg('V', self.V0)
        st.setg('N', self.N0)
        if self.quant:
            c.assume(c.fa(lambda q: z3.And(Sel(self.N0, q) >= 0, Sel(self.N0, q) <= 64, Sel(self.V0, q) >= 0, Sel(self.V0, q) < 1 << 64)))
        c.assume(1 <= Sel(self.N0, self.q0), Sel(self.N0, self.q0) <= self.w0, Sel(self.N0, self.q0) <= 64)
        st.setg('live', ((self.q0, self.w0),))
        self.maps = {}
        c.handle(re.compile(r'^bitio::stream::'), self.h_stream)
        c.handle(re.compile(r'^std::mutex::|^(pthread_mutex_)'), trust('locks are taken and released without other effect')(lambda eng, st, k: None))
        c.handle(re.compile(r'std::vector<HZ_ArchiveFragment.*>::(push_back|emplace_back)'), self.h_push)
        c.handle(re.compile(r'std::vector<HZ_ArchiveFragment.*>::(_M_erase|erase)\('), self.h_erase)
        c.handle(re.compile(r'std::unordered_map<unsigned long, (unsigned long|bool)\b.*>::(contains|operator\[\]|erase|count|find|at)\('), self.h_map)
        c.handle(re.compile(r'^hz_rand64\(\)'), self.h_rand)

    # ---- free list
    def setvec(self, st, n):
        e, o = self.eng, self.o
        for off, v in ((0, Ptr(self.fo)), (8, Ptr(self.fo, 0, ((n, 16),)))):
            p = Ptr(self.a, o['frags'] + off)
            os, ri, r = e.access(st, p, 8, 'init')
            e._store(st, os, ri, r, p, 8, v, False)
        st.setg('nf', n)

    def fs(self, st):
        return self.c.arr(self.fo, 0, st=st) if self.vec == 'mem' else st.ghost['FS']

    def fl(self, st):
        return self.c.arr(self.fo, 8, st=st) if self.vec == 'mem' else st.ghost['FL']

    def nf(self, st):
        if self.vec == 'mem':
            e = self.eng.peekp(st, Ptr(self.a, self.o['frags'] + 8))
            return self.eng.intv(st, self.eng.lin_div(LinOff(e.c, e.ix), 16))
        return st.ghost['nf']

    def eof(self, st):
        return self.c.peek(st, Ptr(self.a, self.o['eof']), 64)

    def isvec(self, p):
        if not isinstance(p, Ptr) or p.obj is not self.a or p.c != self.o['frags'] or p.ix:
            raise Structure('fragment list operation on another vector')

    @trust('std::vector<HZ_ArchiveFragment>: standard sequence semantics')
    def h_push(self, eng, st, k):
        self.isvec(k.args[0])
        s, l = eng.peek(st, k.args[1], 64), eng.peek(st, k.args[1].add(8), 64)
        n = self.nf(st)
        if self.vec == 'mem':
            raise Structure('push_back in a unit on the concrete vector')
        st.setg('FS', Sto(st.ghost['FS'], n, s))
        st.setg('FL', Sto(st.ghost['FL'], n, l))
        st.setg('nf', n + 1)
        if not self.nolog:
            st.setg('pushed', st.ghost.get('pushed', ()) + ((s, l),))
        return self.eng.freshp(st, 'ref') if hasattr(self.eng, 'freshp') else Opaque('ref')

    @trust('std::vector<HZ_ArchiveFragment>: standard sequence semantics')
    def h_erase(self, eng, st, k):
        p, it = k.args[-2], k.args[-1]
        self.isvec(p)
        if not isinstance(it, Ptr) or it.obj is not self.fo:
            raise Structure('erase at an unknown iterator')
        i = eng.intv(st, eng.lin_div(LinOff(it.c, it.ix), 16))
        n = self.nf(st)
        eng.require(st, z3.And(0 <= i, i < n), 'precondition', label='erases an existing fragment')
        for inner in (0, 8):
            a = self.c.arr(self.fo, inner, st=st)
            b = eng.freshc('erased', a.sort())
            st.fa.append(self.c.fa(lambda q, a=a, b=b: Sel(b, q) == z3.If(q < i, Sel(a, q), Sel(a, q + 1))))
            self.setfield(st, inner, b)
        self.setvec(st, n - 1)
        return Ptr(self.fo, 0, ((i, 16),))

    def setfield(self, st, inner, b):
        os = st.mem[self.fo.oid].copy()
        r = os.regs[0]
        f = dict(r.f)
        f[inner] = (f[inner][0], b)
        os.regs[0] = Arr(r.start, r.S, r.n, f)
        st.mem[self.fo.oid] = os
        if st.wlog is not None:
            st.wlog.add(('arr', self.fo.oid, 0, inner))

    # ---- the stream
    @trust('bitio::stream (not in the repository): a bit-addressed file; write(v, n) puts the low n bits of v at the position, read(n) returns the n bits at the position, both advance it; seek moves it')
    def h_stream(self, eng, st, k):
        fn = re.search(r'stream::(\w+)\(', k.fn).group(1)
        p = k.args[0]
        if not isinstance(p, Ptr) or p.obj is not self.stream or p.c or p.ix:
            raise Structure('operation on another stream')
        pos = st.ghost['pos']
        if fn == 'seek_to':
            st.setg('pos', eng.intv(st, k.args[1]))
        elif fn == 'seek':
            d = eng.dom.signed(eng, st, k.args[1], 64)
            st.setg('pos', pos + d)
        elif fn == 'write':
            n = eng.dom.cval(k.args[2])
            if n is None or not 1 <= n <= 64:
                raise Structure('stream write of variable width')
            self.write(st, pos, eng.intv(st, k.args[1]) % (1 << n) if n < 64 else eng.intv(st, k.args[1]), n)
        elif fn == 'read':
            n = eng.dom.cval(k.args[1])
            if n is None or not 1 <= n <= 64:
                raise Structure('stream read of variable width')
            v = eng.fresh(st, 'read', 64)
            st.assume(v >= 0, v < 1 << n, z3.Implies(Sel(st.ghost['N'], pos) == n, v == Sel(st.ghost['V'], pos)))
            st.setg('pos', pos + n)
            return v
        elif fn in ('flush', 'close'):
            st.setg('flushed', st.ghost.get('flushed', 0) + 1)
        else:
            raise Unsupported('bitio::stream::' + fn)
        return None

    def write(self, st, pos, v, n):
        self.eng.require(st, z3.And(pos >= 0, pos < 2 * LIM), 'precondition', label='writes at a valid position')
        lim = st.ghost.get('region')
        if lim is not None:
            self.eng.require(st, z3.Or(*[z3.And(pos >= a, pos + n <= b) for a, b in lim]), 'frame', label='writes stay in the space of the block being written')
        V, N = st.ghost['V'], st.ghost['N']
        N2 = self.eng.freshc('N', N.sort())
        self.at(st, lambda q: z3.And(Sel(N, q) >= 0, Sel(N, q) <= 64, z3.Implies(z3.Or(q + Sel(N, q) <= pos, q >= pos + n), Sel(N2, q) == Sel(N, q)), z3.Implies(q == pos, Sel(N2, q) == n), Sel(N2, q) >= 0, Sel(N2, q) <= 64))
        st.assume(Sel(N2, pos) == n)
        st.setg('V', Sto(V, pos, v))
        st.setg('N', N2)
        st.setg('pos', pos + n)

    def watch(self, st):
        """the positions a unit speaks about"""
        out = [q for q, _ in st.ghost['live']] + list(self.extra(st))
        for k in (self.K, self.J):
            out += [Sel(self.fs(st), k), Sel(self.fs(st), k) + 8]
        for s, _ in st.ghost.get('blocks', ()):
            out += [s + d for d in (0, 8, 72, 136, 200)]
        return out

    def at(self, st, f):
        """a fact about every position"""
        if self.quant:
            st.fa.append(self.c.fa(f))
        else:
            for q in self.watch(st):
                st.assume(f(q))

    def tok(self, st, q, n, v):
        """the token at q"""
        return z3.And(Sel(st.ghost['N'], q) == n, Sel(st.ghost['V'], q) == v)

    def tok0(self, q, n, v):
        return z3.And(Sel(self.N0, q) == n, Sel(self.V0, q) == v)

    # ---- maps
    def map(self, st, name, w=8):
        """the map at this offset exists at entry"""
        c = self.c
        has = c.freshc(name + '.has', z3.ArraySort(I, z3.BoolSort()))
        o = self.eng.new_arr(st, name, w, z3.IntVal(1 << 64))
        st.setg('has:' + name, has)
        self.maps[self.o[name]] = (name, o, w)
        return has, o

    def has(self, st, name):
        return st.ghost['has:' + name]

    def val(self, st, name):
        for nm, o, w in self.maps.values():
            if nm == name:
                return self.c.arr(o, st=st)

    @trust('std::unordered_map with integer keys: a finite map')
    def h_map(self, eng, st, k):
        p = k.args[0]
        if not isinstance(p, Ptr) or p.obj is not self.a or p.ix or p.c not in self.maps:
            raise Structure('operation on an unknown map: ' + k.fn)
        name, o, w = self.maps[p.c]
        op = re.search(r'>::(contains|operator\[\]|erase|count|at)\(', k.fn)
        if not op or not isinstance(k.args[1], Ptr):
            raise Unsupported(k.fn)
        key = eng.intv(st, eng.peek(st, k.args[1], 64))
        h = self.has(st, name)
        op = op.group(1)
        if op == 'contains':
            return Sel(h, key)
        if op == 'count':
            return z3.If(Sel(h, key), z3.IntVal(1), z3.IntVal(0))
        if op == 'erase':
            st.setg('has:' + name, Sto(h, key, False))
            return z3.If(Sel(h, key), z3.IntVal(1), z3.IntVal(0))
        if op == 'at':
            eng.require(st, Sel(h, key), 'precondition', label='map element exists')
        else:
            a = self.c.arr(o, st=st)
            eng.setarr(st, o, z3.simplify(z3.Store(a, key, z3.If(Sel(h, key), Sel(a, key), z3.IntVal(0)))))
            st.setg('has:' + name, Sto(h, key, True))
        return Ptr(o, 0, ((key, w),))

    @trust('hz_rand64: any 64-bit value')
    def h_rand(self, eng, st, k):
        return eng.fresh(st, 'id', 64)

    # ---- invariant
    def inv(self, st, k):
        """fragment k lies in the file, has its header on file and does not touch the live token"""
        return self.inv_(k, self.fs(st), self.fl(st), self.eof(st), st.ghost['V'], st.ghost['N'], st.ghost['live'])

    def inv_(self, k, fs, fl, eof, V, N, live):
        tok = lambda q, n, v: z3.And(Sel(N, q) == n, Sel(V, q) == v)
        s, l = Sel(fs, k), Sel(fl, k)
        return {'lies in the file': z3.And(s >= 0, l >= 0, s + 0x48 + l <= eof), 'does not touch live data': z3.And(*[disj(s, 0x48 + l, q, w) for q, w in live]),
                'has its header on file': z3.And(tok(s, 8, EMPTY), tok(s + 8, 64, l))}

    def assume_inv(self, st):
        c = self.c
        n, s, l, e, V, N, live = self.nf(st), self.fs(st), self.fl(st), self.eof(st), st.ghost['V'], st.ghost['N'], st.ghost['live']
        rng = lambda k: z3.And(0 <= k, k < n)
        if not self.quant:
            for k in (self.K, self.J):
                st.assume(z3.Implies(rng(k), z3.And(*self.inv_(k, s, l, e, V, N, live).values())))
            st.assume(self.pairwise(st, self.J, self.K))
            return
        st.assume(c.fa(lambda k: z3.Implies(rng(k), z3.And(*self.inv_(k, s, l, e, V, N, live).values()))))
        st.assume(c.fa(lambda j, k: z3.Implies(z3.And(rng(j), rng(k), j != k), disj(Sel(s, j), 0x48 + Sel(l, j), Sel(s, k), 0x48 + Sel(l, k))), 2))

    def ensure_inv(self, t, what=''):
        c = self.c
        n = self.nf(t)
        k, j = self.K, self.J
        for nm, g in self.inv(t, k).items():
            c.ensure(t, 'every free fragment %s%s' % (nm, what), z3.Implies(z3.And(0 <= k, k < n), g))
        s, l = self.fs(t), self.fl(t)
        c.ensure(t, 'free fragments do not overlap' + what, z3.Implies(z3.And(0 <= k, k < n, 0 <= j, j < n, j != k), disj(Sel(s, j), 0x48 + Sel(l, j), Sel(s, k), 0x48 + Sel(l, k))))

    def fixed(self):
        self.K, self.J = self.c.sym('K', 64), self.c.sym('J', 64)

    def live_kept(self, t):
        self.c.ensure(t, 'live data elsewhere is kept', self.tok(t, self.q0, Sel(self.N0, self.q0), Sel(self.V0, self.q0)))

    def pairwise(self, st, j, k):
        s, l, n = self.fs(st), self.fl(st), self.nf(st)
        return z3.Implies(z3.And(0 <= k, k < n, 0 <= j, j < n, j != k), disj(Sel(s, j), 0x48 + Sel(l, j), Sel(s, k), 0x48 + Sel(l, k)))

    def use_alloc(self):
        """hza_alloc_fragment through its contract"""
        c = self.c

        @trust('hza_alloc_fragment: contract verified in C24')
        def h(eng, st, k):
            out, a, n = (k.args[0], k.args[1], k.args[2])
            if not isinstance(a, Ptr) or a.obj is not self.a:
                raise Structure('allocation in another archive')
            n = eng.intv(st, n)
            eng.require(st, z3.And(n >= 0, n < LIM), 'precondition', label='allocation length in range')
            nf = self.nf(st)
            eng.require(st, z3.Implies(z3.And(0 <= self.K, self.K < nf), z3.And(*self.inv(st, self.K).values())), 'precondition', label='free list in order when space is allocated')
            eng.require(st, self.pairwise(st, self.J, self.K), 'precondition', label='free fragments disjoint when space is allocated')
            m = 0x48 + n
            st.setg('blocks', st.ghost.get('blocks', ()))
            none = st.fork()
            o = self.o
            eng.poke(none, out.add(o['some']), 8, eng.dom.const(0, 8))
            self.begin(none, self.eof(none), n)
            r = eng.fresh(st, 'space', 64)
            V, N = st.ghost['V'], st.ghost['N']
            for g, so in (('V', z3.ArraySort(I, I)), ('N', z3.ArraySort(I, I)), ('FS', z3.ArraySort(I, I)), ('FL', z3.ArraySort(I, I))):
                st.setg(g, eng.freshc(g, so))
            V2, N2 = st.ghost['V'], st.ghost['N']
            nf2 = eng.fresh(st, 'fragments', 64)
            st.assume(nf2 <= nf)
            st.setg('nf', nf2)
            st.setg('pos', eng.fresh(st, 'pos', 64))
            self.assume_inv(st)
            for q, w in st.ghost['live']:
                st.assume(disj(r, m, q, w))
                self.at(st, lambda x, q=q, w=w: z3.Implies(z3.And(q <= x, x + Sel(N, x) <= q + w), z3.And(Sel(V2, x) == Sel(V, x), Sel(N2, x) == Sel(N, x))))
            st.assume(r >= 0, r + m <= self.eof(st))
            S2, L2 = st.ghost['FS'], st.ghost['FL']
            for k in (self.K, self.J):
                st.assume(z3.Implies(z3.And(0 <= k, k < nf2), disj(r, m, Sel(S2, k), 0x48 + Sel(L2, k))))
            eng.poke(st, out.add(o['some']), 8, eng.dom.const(1, 8))
            eng.poke(st, out.add(o['inner']), 64, r)
            self.begin(st, r, n)
            return [(st, None), (none, None)]
        c.handle(re.compile(r'^HZ_Archive::hza_alloc_fragment\('), h)

    def begin(self, st, start, n):
        """a block is about to be written"""
        st.setg('blocks', st.ghost.get('blocks', ()) + ((start, n),))
        st.setg('region', ((start, start + 0x48 + n),))

    def kept(self, L):
        """loop candidates: what is on file at the watched positions stays"""
        d = {}
        g, e = L.st.ghost, L.entry.ghost
        for i, (p, q) in enumerate(zip(self.watch(L.st), self.watch(L.entry))):
            if p.eq(q):
                d['kept %d' % i] = z3.And(Sel(g['N'], p) == Sel(e['N'], p), Sel(g['V'], p) == Sel(e['V'], p))
        for k in (self.K, self.J):
            d['free list %s' % k] = z3.Implies(z3.And(0 <= k, k < self.nf(L.st)), z3.And(*self.inv(L.st, k).values()))
        d['fragments disjoint'] = self.pairwise(L.st, self.J, self.K)
        return d

    def layout(self, t, what, fields):
        for i, f in enumerate(fields):
            (p, w, v), cond = f[-3:], f[0] if len(f) == 4 else None
            g = self.tok(t, p, w, v)
            self.c.ensure(t, '%s: field %d on file' % (what, i), g if cond is None else z3.Implies(cond, g))

    def has_layout(self, fields):
        """precondition: these tokens are on file"""
        for f in fields:
            (p, w, v), cond = f[-3:], f[0] if len(f) == 4 else None
            g = self.tok0(p, w, v)
            self.c.assume(g if cond is None else z3.Implies(cond, g))

    def taken(self, s, n):
        """precondition: a block in use, apart from free space and the other live data"""
        c = self.c
        c.assume(s >= 0, n >= 0, s + 0x48 + n <= self.eof0, disj(s, 0x48 + n, self.q0, self.w0))
        for k in (self.K, self.J):
            c.assume(z3.Implies(z3.And(0 <= k, k < self.nf0), disj(s, 0x48 + n, Sel(self.FS0, k), 0x48 + Sel(self.FL0, k))))

    def map_kept(self, t, name, has0, val0, but=None):
        K = self.K
        g = z3.And(Sel(self.has(t, name), K) == Sel(has0, K), z3.Implies(Sel(has0, K), Sel(self.val(t, name), K) == Sel(val0, K)))
        self.c.ensure(t, '%s: other entries kept' % name, g if but is None else z3.Implies(K != but, g))

    def block_done(self, t, nblk=1):
        c = self.c
        bl = t.ghost.get('blocks', ())
        c.ensure(t, 'writes %d block%s' % (nblk, '' if nblk == 1 else 's'), z3.BoolVal(len(bl) == nblk))
        n, e = self.nf(t), self.eof(t)
        for i, (s, l) in enumerate(bl):
            w = '' if nblk == 1 else ' (block %d)' % i
            c.ensure(t, 'the block lies in the file' + w, z3.And(s >= 0, s + 0x48 + l <= e))
            c.ensure(t, 'the space of the block is not free' + w, z3.Implies(z3.And(0 <= self.K, self.K < n), disj(s, 0x48 + l, Sel(self.fs(t), self.K), 0x48 + Sel(self.fl(t), self.K))))
        c.ensure(t, 'the file does not shrink', e >= self.eof0)
        return bl


# ---- what blocks look like: (position, bits, value)
def mstate_head(s, n, id_, alg, size):
    return [(s, 8, MSTATE), (s + 8, 64, n), (s + 72, 64, id_), (s + 136, 64, alg), (s + 200, 64, size)]


def blob_head(s, n, id_, hs):
    return [(s, 8, BLOB), (s + 8, 64, n), (s + 72, 64, id_), (s + 136, 64, hs)]


def blob_mid(s, hs, osz, mid, size):
    b = s + 200 + 8 * hs
    return [(b, 64, osz), (b + 64, 64, mid), (b + 128, 64, size)]


def mstate_obj(c, size, name='mstate'):
    o = c.o
    c.m_alg = c.sym(name + '.alg', 32)
    c.m_arr = c.array(name + '.data', 1, size)
    c.M0 = c.arr(c.m_arr)
    return c.cells(name, o['msize'], {o['m_data']: ('p', Ptr(c.m_arr)), o['m_n']: (64, size), o['m_alg']: (32, c.m_alg)})



def returns(c, t):
    c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
    return t.done == 'ret'


def obj_ptr(c, o, name):
    return c.cells(name, 16, {0: ('p', Ptr(o)), 8: (64, 1)})


def start(c, alloc=True):
    a = Archive(c)
    a.fixed()
    a.assume_inv(c.st)
    if alloc:
        a.use_alloc()
    c.a = a
    return a


def u_write_mstate(c):
    a = start(c)
    size = c.sym('size', 64)
    c.assume(size < 1 << 31)
    has0, mo = a.map(c.st, 'mstate_map')
    m0 = c.arr(mo)
    ms = mstate_obj(c, size)
    c.args = [Ptr(a.a), Ptr(obj_ptr(c, ms, 'arg'))]
    K = a.K
    a.extra = lambda st: [s + 264 + 8 * K for s, _ in st.ghost.get('blocks', ())]

    def t(L, v):
        st = L.st
        d = {'in range': v <= size, **a.kept(L)}
        for s, n in st.ghost.get('blocks', ()):
            d['position'] = st.ghost['pos'] == s + 264 + 8 * v
            d['data so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 264 + 8 * K, 8, Sel(c.M0, K)))
        return d
    c.auto(t, hi=size)
    yield
    for t_ in c.terminals:
        if not returns(c, t_):
            continue
        bl = a.block_done(t_)
        a.ensure_inv(t_)
        a.live_kept(t_)
        if len(bl) != 1:
            continue
        s, n = bl[0]
        id_ = t_.ret
        c.ensure(t_, 'the block is as long as its content', n == 0xC0 + 8 * size)
        a.layout(t_, 'model state', mstate_head(s, n, id_, c.m_alg, size) + [(z3.And(0 <= K, K < size), s + 264 + 8 * K, 8, Sel(c.M0, K))])
        c.ensure(t_, 'the id was not in use', z3.Not(Sel(has0, id_)))
        c.ensure(t_, 'the id finds the block', z3.And(Sel(a.has(t_, 'mstate_map'), id_), Sel(a.val(t_, 'mstate_map'), id_) == s))
        a.map_kept(t_, 'mstate_map', has0, m0, id_)


def u_read_mstate(c):
    c.eng.opts['alloc_elem'] = 1
    a = start(c, False)
    has0, mo = a.map(c.st, 'mstate_map')
    m0 = c.arr(mo)
    id_, n, alg, size = c.sym('id', 64), c.sym('length', 64), c.sym('alg', 32), c.sym('size', 64)
    s = Sel(m0, id_)
    K = a.K
    X = c.freshc('content', z3.ArraySort(I, I))
    c.assume(size < 1 << 32, s >= 0, s < LIM, Sel(X, K) >= 0, Sel(X, K) < 256)
    a.extra = lambda st: [s + d for d in (0, 8, 72, 136, 200)] + [s + 264 + 8 * K]
    c.assume(z3.Implies(Sel(has0, id_), z3.And(*[a.tok0(*f) for f in mstate_head(s, n, id_, alg, size)])))
    c.assume(z3.Implies(z3.And(Sel(has0, id_), 0 <= K, K < size), a.tok0(s + 264 + 8 * K, 8, Sel(X, K))))
    out = c.cells('out', 16)
    c.args = [Ptr(a.a), id_, Ptr(out)]

    def t(L, v):
        st = L.st
        d = {'in range': v <= size, 'position': st.ghost['pos'] == s + 264 + 8 * v}
        for i, b in enumerate(c.blocks(st)):
            d['read so far %d' % i] = z3.Implies(z3.And(0 <= K, K < v), Sel(c.arr(b, st=st), K) == Sel(X, K))
        return d
    c.auto(t, hi=size)
    yield
    o = c.o
    for t_ in c.terminals:
        c.ensure(t_, 'nothing on file changes', z3.BoolVal(t_.ghost['V'].eq(a.V0) and t_.ghost['N'].eq(a.N0)))
        a.map_kept(t_, 'mstate_map', has0, m0)
        if t_.done != 'ret':
            c.ensure(t_, 'an unknown id is reported as such', z3.And(z3.BoolVal('MstateNotFound' in str(t_.exc[0])), z3.Not(Sel(has0, id_))))
            continue
        c.ensure(t_, 'only known ids are read', Sel(has0, id_))
        mstate_is(c, t_, out, alg, size, K, Sel(X, K))


def mstate_is(c, t, out, alg, size, K, xk):
    o = c.o
    p = c.eng.peekp(t, Ptr(out)) if not isinstance(out, Ptr) else out
    ok = isinstance(p, Ptr) and p.obj is not None and p.c == 0 and not p.ix
    c.ensure(t, 'a model state is returned', z3.BoolVal(ok))
    if not ok:
        return
    c.ensure(t, 'algorithm as written', c.peek(t, Ptr(p.obj, o['m_alg']), 32) == alg)
    c.ensure(t, 'size as written', c.peek(t, Ptr(p.obj, o['m_n']), 64) == size)
    bytes_are(c, t, Ptr(p.obj, o['m_data']), 'data', size, K, xk)


def bytes_are(c, t, at, what, size, K, xk):
    d = c.eng.peekp(t, at)
    ok = isinstance(d, Ptr) and d.obj is not None and d.c == 0 and not d.ix and d.obj in c.blocks(t)
    c.ensure(t, what + ' in a block of its own', z3.BoolVal(ok))
    if ok:
        c.ensure(t, what + ' as written', z3.Implies(z3.And(0 <= K, K < size), Sel(c.arr(d.obj, st=t), K) == xk))


def u_write_blob(c):
    a = start(c)
    o = c.o
    hs, size, osz, mid = c.sym('header_size', 64), c.sym('size', 64), c.sym('o_size', 64), c.sym('mstate_id', 64)
    c.assume(size < 1 << 31, hs < 1 << 31)
    has0, bo = a.map(c.st, 'blob_map')
    b0 = c.arr(bo)
    mh0, mo = a.map(c.st, 'mstate_map')
    dh0, do = a.map(c.st, 'dep')
    d0 = c.arr(do)
    c.assume(z3.Implies(Sel(dh0, mid), z3.And(Sel(d0, mid) >= 1, Sel(d0, mid) < LIM)))
    raw, dat = c.array('header', 1, hs), c.array('data', 1, size)
    H, D = c.arr(raw), c.arr(dat)
    b = c.cells('blob', o['bsize'], {o['b_raw']: ('p', Ptr(raw)), o['b_rawn']: (64, hs), o['b_data']: ('p', Ptr(dat)), o['b_n']: (64, size), o['b_size']: (64, size), o['b_osize']: (64, osz), o['b_mid']: (64, mid)})
    c.args = [Ptr(a.a), Ptr(b)]
    K = a.K
    a.extra = lambda st: sum([[s + 200 + 8 * K, s + 392 + 8 * hs + 8 * K] + [p for p, _, _ in blob_mid(s, hs, osz, mid, size)] for s, _ in st.ghost.get('blocks', ())], [])

    def t(L, v):
        st = L.st
        d = {'in range': v <= hs, 'in range 2': v <= size, **a.kept(L)}
        for s, n in st.ghost.get('blocks', ()):
            d['position'] = st.ghost['pos'] == s + 200 + 8 * v
            d['position 2'] = st.ghost['pos'] == s + 392 + 8 * hs + 8 * v
            d['header'] = z3.Implies(z3.And(0 <= K, K < hs), a.tok(st, s + 200 + 8 * K, 8, Sel(H, K)))
            d['header so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 200 + 8 * K, 8, Sel(H, K)))
            d['data so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 392 + 8 * hs + 8 * K, 8, Sel(D, K)))
        return d
    c.auto(t, hi=hs + size)
    yield
    for t_ in c.terminals:
        if t_.done != 'ret':
            c.ensure(t_, 'an unknown model state is reported as such', z3.And(z3.BoolVal('MstateNotFound' in str(t_.exc[0])), z3.Not(Sel(mh0, mid))))
            c.ensure(t_, 'and nothing is written', z3.BoolVal(t_.ghost['V'].eq(a.V0) and not t_.ghost.get('blocks')))
            continue
        c.ensure(t_, 'its model state is in the archive', Sel(mh0, mid))
        bl = a.block_done(t_)
        a.ensure_inv(t_)
        a.live_kept(t_)
        if len(bl) != 1:
            continue
        s, n = bl[0]
        id_ = t_.ret
        c.ensure(t_, 'the block is as long as its content', n == 0x140 + 8 * hs + 8 * size)
        a.layout(t_, 'blob', blob_head(s, n, id_, hs) + blob_mid(s, hs, osz, mid, size) + [(z3.And(0 <= K, K < hs), s + 200 + 8 * K, 8, Sel(H, K)), (z3.And(0 <= K, K < size), s + 392 + 8 * hs + 8 * K, 8, Sel(D, K))])
        c.ensure(t_, 'the id was not in use', z3.Not(Sel(has0, id_)))
        c.ensure(t_, 'the id finds the block', z3.And(Sel(a.has(t_, 'blob_map'), id_), Sel(a.val(t_, 'blob_map'), id_) == s))
        a.map_kept(t_, 'blob_map', has0, b0, id_)
        c.ensure(t_, 'one more blob depends on the model state', z3.And(Sel(a.has(t_, 'dep'), mid), Sel(a.val(t_, 'dep'), mid) == z3.If(Sel(dh0, mid), Sel(d0, mid), 0) + 1))
        a.map_kept(t_, 'dep', dh0, d0, mid)


def u_read_blob(c):
    c.eng.opts['alloc_elem'] = 1
    a = start(c, False)
    o = c.o
    has0, bo = a.map(c.st, 'blob_map')
    b0 = c.arr(bo)
    id_, n, hs, size, osz, mid = c.sym('id', 64), c.sym('length', 64), c.sym('header_size', 64), c.sym('size', 64), c.sym('o_size', 64), c.sym('mstate_id', 64)
    s = Sel(b0, id_)
    K = a.K
    H, D = c.freshc('header', z3.ArraySort(I, I)), c.freshc('data', z3.ArraySort(I, I))
    c.assume(size < 1 << 32, hs < 1 << 32, s >= 0, s < LIM)
    for X in (H, D):
        c.assume(Sel(X, K) >= 0, Sel(X, K) < 256)
    lay = blob_head(s, n, id_, hs) + blob_mid(s, hs, osz, mid, size)
    hk, dk = s + 200 + 8 * K, s + 392 + 8 * hs + 8 * K
    a.extra = lambda st: [p for p, _, _ in lay] + [hk, dk]
    c.assume(z3.Implies(Sel(has0, id_), z3.And(*[a.tok0(*f) for f in lay])))
    c.assume(z3.Implies(z3.And(Sel(has0, id_), 0 <= K, K < hs), a.tok0(hk, 8, Sel(H, K))), z3.Implies(z3.And(Sel(has0, id_), 0 <= K, K < size), a.tok0(dk, 8, Sel(D, K))))
    ms = c.cells('the_mstate', o['msize'])
    missing = z3.Bool('model state missing')

    @trust('hza_read_mstate: contract verified in C23')
    def rm(eng, st, k):
        if k.args[0].obj is not a.a:
            raise Structure('reads from another archive')
        eng.require(st, k.args[1] == mid, 'precondition', label='asks for the model state of the blob')
        bad = st.fork()
        bad.assume(missing)
        st.assume(z3.Not(missing))
        return [(st, [Ptr(ms), eng.dom.const(1, 64)]), Throw(bad, 'ArchiveErrors::MstateNotFoundException')]
    c.handle(re.compile(r'^HZ_Archive::hza_read_mstate\('), rm)
    out = c.cells('out', 16)
    c.args = [Ptr(a.a), id_, Ptr(out)]

    def t(L, v):
        st = L.st
        d = {'in range': v <= hs, 'in range 2': v <= size, 'position': st.ghost['pos'] == s + 200 + 8 * v, 'position 2': st.ghost['pos'] == s + 392 + 8 * hs + 8 * v}
        for i, b in enumerate(c.blocks(st)):
            for nm, X in (('header', H), ('data', D)):
                d['%s %d' % (nm, i)] = z3.Implies(z3.And(0 <= K, K < (hs if X is H else size)), Sel(c.arr(b, st=st), K) == Sel(X, K))
                d['%s so far %d' % (nm, i)] = z3.Implies(z3.And(0 <= K, K < v), Sel(c.arr(b, st=st), K) == Sel(X, K))
        return d
    c.auto(t, hi=hs + size)
    yield
    for t_ in c.terminals:
        c.ensure(t_, 'nothing on file changes', z3.BoolVal(t_.ghost['V'].eq(a.V0) and t_.ghost['N'].eq(a.N0)))
        a.map_kept(t_, 'blob_map', has0, b0)
        if t_.done != 'ret':
            c.ensure(t_, 'an unknown id is reported as such', z3.Or(z3.And(z3.BoolVal('BlobNotFound' in str(t_.exc[0])), z3.Not(Sel(has0, id_))), z3.And(z3.BoolVal('MstateNotFound' in str(t_.exc[0])), missing)))
            continue
        c.ensure(t_, 'only known ids are read', Sel(has0, id_))
        p = c.eng.peekp(t_, Ptr(out))
        ok = isinstance(p, Ptr) and p.obj is not None and p.c == 0 and not p.ix
        c.ensure(t_, 'a blob is returned', z3.BoolVal(ok))
        if not ok:
            continue
        f = lambda k: c.peek(t_, Ptr(p.obj, o[k]), 64)
        c.ensure(t_, 'header size as written', f('b_rawn') == hs)
        c.ensure(t_, 'size as written', z3.And(f('b_size') == size, f('b_n') == size))
        c.ensure(t_, 'original size as written', f('b_osize') == osz)
        c.ensure(t_, 'model state id as written', f('b_mid') == mid)
        q = c.eng.peekp(t_, Ptr(p.obj, o['b_mstate']))
        c.ensure(t_, 'with its model state', z3.BoolVal(isinstance(q, Ptr) and q.obj is ms))
        bytes_are(c, t_, Ptr(p.obj, o['b_raw']), 'header', hs, K, Sel(H, K))
        bytes_are(c, t_, Ptr(p.obj, o['b_data']), 'data', size, K, Sel(D, K))


def u_rm_mstate(c):
    a = start(c, False)
    has0, mo = a.map(c.st, 'mstate_map')
    m0 = c.arr(mo)
    dh0, do = a.map(c.st, 'dep')
    id_, n = c.sym('id', 64), c.sym('length', 64)
    s = Sel(m0, id_)
    a.extra = lambda st: [s, s + 8]
    a.taken(s, n)
    a.has_layout([(s, 8, MSTATE), (s + 8, 64, n)])
    c.st.setg('region', ((s, s + 8),))
    c.args = [Ptr(a.a), id_]
    yield
    for t in c.terminals:
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'end of file kept', a.eof(t) == a.eof0)
        push = t.ghost.get('pushed', ())
        if push:
            c.ensure(t, 'only an existing, unused model state is removed', z3.And(Sel(has0, id_), z3.Not(Sel(dh0, id_))))
            freed(c, t, push, s, n)
            c.ensure(t, 'the id is gone', z3.Not(Sel(a.has(t, 'mstate_map'), id_)))
        else:
            c.ensure(t, 'an existing, unused model state is removed', z3.Or(z3.Not(Sel(has0, id_)), Sel(dh0, id_)))
            c.ensure(t, 'otherwise the id stays', Sel(a.has(t, 'mstate_map'), id_) == Sel(has0, id_))
            c.ensure(t, 'and the block stays', z3.BoolVal(t.ghost['V'].eq(a.V0) and t.ghost['N'].eq(a.N0)))
        a.map_kept(t, 'mstate_map', has0, m0, id_)
        c.ensure(t, 'the only error is a model state in use', z3.And(z3.BoolVal(t.done == 'ret'), z3.Not(z3.And(Sel(has0, id_), Sel(dh0, id_)))) if t.done == 'ret' else z3.And(z3.BoolVal('InvalidOperation' in str(t.exc[0])), Sel(has0, id_), Sel(dh0, id_)))


def freed(c, t, push, *blocks):
    """the blocks whose space becomes free: each once, exactly its own extent"""
    c.ensure(t, 'frees %d block(s)' % (len(blocks) // 2), z3.BoolVal(len(push) == len(blocks) // 2))
    for i, (s, l) in enumerate(zip(blocks[::2], blocks[1::2])):
        if i < len(push):
            c.ensure(t, 'block %d is freed as a whole' % i, z3.And(push[i][0] == s, push[i][1] == l))


def u_rm_blob(c):
    a = start(c, False)
    has0, bo = a.map(c.st, 'blob_map')
    b0 = c.arr(bo)
    mh0, mo = a.map(c.st, 'mstate_map')
    m0 = c.arr(mo)
    dh0, do = a.map(c.st, 'dep')
    d0 = c.arr(do)
    ih0, io = a.map(c.st, 'inv_aux', 1)
    id_, n, hs, mid, nm = c.sym('id', 64), c.sym('length', 64), c.sym('header_size', 64), c.sym('mstate_id', 64), c.sym('mstate_length', 64)
    s, sm = Sel(b0, id_), Sel(m0, mid)
    c.assume(hs < 1 << 32, n >= 0x140 + 8 * hs)
    a.extra = lambda st: [s, s + 8, s + 136, s + 200 + 8 * hs + 64, sm, sm + 8]
    a.taken(s, n)
    a.has_layout([(s, 8, BLOB), (s + 8, 64, n), (s + 136, 64, hs), (s + 200 + 8 * hs + 64, 64, mid)])
    # its model state, if there: another block
    c.assume(z3.Implies(Sel(mh0, mid), z3.And(a.tok0(sm, 8, MSTATE), a.tok0(sm + 8, 64, nm), disj(sm, 0x48 + nm, s, 0x48 + n))), z3.Implies(Sel(dh0, mid), z3.And(Sel(d0, mid) >= 1, Sel(d0, mid) < LIM)))
    a.taken(sm, nm)
    c.st.setg('region', ((s, s + 8), (sm, sm + 8)))
    c.args = [Ptr(a.a), id_]
    last = z3.And(Sel(dh0, mid), Sel(d0, mid) == 1)
    yield
    for t in c.terminals:
        push = t.ghost.get('pushed', ())
        if t.done != 'ret':
            c.ensure(t, 'the only error is an unknown id', z3.And(z3.BoolVal('BlobNotFound' in str(t.exc[0]) and not push), z3.Not(Sel(has0, id_))))
            c.ensure(t, 'and nothing changes', z3.BoolVal(t.ghost['V'].eq(a.V0) and t.ghost['N'].eq(a.N0)))
            continue
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'the blob existed', Sel(has0, id_))
        c.ensure(t, 'end of file kept', a.eof(t) == a.eof0)
        c.ensure(t, 'the id is gone', z3.Not(Sel(a.has(t, 'blob_map'), id_)))
        a.map_kept(t, 'blob_map', has0, b0, id_)
        h2, v2 = Sel(a.has(t, 'dep'), mid), Sel(a.val(t, 'dep'), mid)
        c.ensure(t, 'one blob less depends on the model state', z3.If(Sel(dh0, mid), z3.If(Sel(d0, mid) > 1, z3.And(h2, v2 == Sel(d0, mid) - 1), z3.Not(h2)), z3.Not(h2)))
        a.map_kept(t, 'dep', dh0, d0, mid)
        a.map_kept(t, 'mstate_map', mh0, m0, mid)
        gone = z3.And(last, z3.Not(Sel(ih0, mid)), Sel(mh0, mid))
        c.ensure(t, 'its model state goes with the last blob using it, unless it has a path', Sel(a.has(t, 'mstate_map'), mid) == z3.And(Sel(mh0, mid), z3.Not(gone)))
        if len(push) == 2:
            c.ensure(t, 'frees two blocks only when the model state goes too', gone)
            freed(c, t, push, s, n, sm, nm)
        else:
            c.ensure(t, 'frees the block of the blob alone otherwise', z3.Not(gone))
            freed(c, t, push, s, n)


# ---- entries with a path
def path_(c):
    import strs
    n = c.sym('path_length', 64)
    c.assume(n < 1 << 31)
    o, a = strs.mk(c, c.st, 'path', n)
    c.path, c.pl, c.PA = o, n, c.arr(a)
    return Ptr(o)


class Trie:
    """HZ_ArchiveTrie as a map from paths to entries, as far as this path is concerned"""

    def __init__(self, c, a, name, size, sof, T):
        self.c, self.a, self.name, self.size, self.sof = c, a, name, size, sof
        self.has0 = z3.Bool(name + ' has path')
        self.log = name + '.log'
        c.st.setg(self.log, ())
        self.entry = None
        for op in ('contains', 'set', 'get', 'erase'):
            h = getattr(self, op)

            @trust('HZ_ArchiveTrie: a map from paths to entries')
            def f(eng, st, k, h=h, op=op):
                args = k.args
                i = 1 if op == 'get' and name == 'file_map' else 0
                p, q = args[i], args[i + 1]
                if not isinstance(p, Ptr) or p.obj is not a.a or p.c != c.o[name] or p.ix:
                    raise Structure('operation on another path map')
                if not isinstance(q, Ptr) or q.obj is not c.path or q.c or q.ix:
                    raise Structure('operation on another path')
                return h(eng, st, k)
            c.handle(re.compile(r'^(HZ_ArchiveEntry<%s> )?HZ_ArchiveTrie<HZ_ArchiveEntry<%s> ?>::%s\(' % (T, T, op)), f)

    def contains(self, eng, st, k):
        log = st.ghost[self.log]
        st.setg(self.log, log)
        if log:
            raise Structure('path looked up after a change')
        return self.has0

    def get(self, eng, st, k):
        eng.require(st, self.has0, 'precondition', label='only entries that exist are read')
        if self.name == 'aux_map':
            return [(st, [self.entry[0][1], self.entry[self.sof][1]])]
        for off, (w, v) in self.entry.items():
            if w == 'p':
                os, ri, r = eng.access(st, k.args[0].add(off), 8, 'entry')
                eng._store(st, os, ri, r, k.args[0].add(off), 8, v, False)
            else:
                eng.poke(st, k.args[0].add(off), w, v)
        return None

    def set(self, eng, st, k):
        v = k.args[2]
        if self.name == 'aux_map':
            st.setg(self.log, st.ghost[self.log] + (('set', None, k.args[3], v),))
            return None
        st.setg(self.log, st.ghost[self.log] + (('set', v, eng.peek(st, v.add(self.sof), 64), self.data(eng, st, v)),))
        return None

    def data(self, eng, st, v):
        if self.name == 'file_map':
            return eng.peekp(st, v.add(self.c.o['f_ids'])), eng.peek(st, v.add(self.c.o['f_n']), 64)

    def erase(self, eng, st, k):
        st.setg(self.log, st.ghost[self.log] + (('erase',),))
        return None


def files(c, a):
    return Trie(c, a, 'file_map', c.o['efsize'], c.o['ef_sof'], 'HZ_ArchiveFile')


def auxs(c, a):
    return Trie(c, a, 'aux_map', c.o['emsize'], c.o['em_sof'], 'unsigned long')


def path_fields(c, s, n, kind, K):
    pl = c.pl
    return [(s, 8, METADATA), (s + 8, 64, n), (s + 72, 8, kind), (s + 80, 64, pl), (z3.And(0 <= K, K < pl), s + 144 + 8 * K, 8, Sel(c.PA, K))]


def u_entry(c):
    import strs
    strs.install(c)
    a = start(c)
    o = c.o
    p = path_(c)
    tr = files(c, a)
    cnt = c.sym('blobs', 64)
    c.assume(cnt < 1 << 31)
    ids = c.array('ids', 8, cnt)
    D = c.arr(ids)
    f = c.cells('file', o['fsize'], {o['f_ids']: ('p', Ptr(ids)), o['f_n']: (64, cnt)})
    c.args = [Ptr(a.a), p, Ptr(f)]
    K, pl = a.K, c.pl
    c.assume(Sel(D, K) >= 0, Sel(D, K) < 1 << 64)
    tail = lambda s: [(s + 144 + 8 * pl, 58, cnt), (z3.And(0 <= K, K < cnt), s + 202 + 8 * pl + 64 * K, 64, Sel(D, K))]
    a.extra = lambda st: sum([[s + 80, s + 144 + 8 * K, s + 144 + 8 * pl, s + 202 + 8 * pl + 64 * K] for s, _ in st.ghost.get('blocks', ())], [])

    def t(L, v):
        st = L.st
        d = {'in range': v <= pl, 'in range 2': v <= cnt, **a.kept(L)}
        for s, n in st.ghost.get('blocks', ()):
            d['position'] = st.ghost['pos'] == s + 144 + 8 * v
            d['position 2'] = st.ghost['pos'] == s + 202 + 8 * pl + 64 * v
            d['path so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 144 + 8 * K, 8, Sel(c.PA, K)))
            d['path'] = z3.Implies(z3.And(0 <= K, K < pl), a.tok(st, s + 144 + 8 * K, 8, Sel(c.PA, K)))
            d['ids so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 202 + 8 * pl + 64 * K, 64, Sel(D, K)))
        return d
    c.auto(t, hi=pl + cnt)
    yield
    for t_ in c.terminals:
        log = t_.ghost[tr.log]
        if t_.done != 'ret':
            c.ensure(t_, 'the only error is an existing entry', z3.And(z3.BoolVal('InvalidOperation' in str(t_.exc[0]) and not log), tr.has0))
            c.ensure(t_, 'and nothing is written', z3.BoolVal(t_.ghost['V'].eq(a.V0) and not t_.ghost.get('blocks')))
            continue
        c.ensure(t_, 'there was no such entry', z3.Not(tr.has0))
        bl = a.block_done(t_)
        a.ensure_inv(t_)
        a.live_kept(t_)
        if len(bl) != 1:
            continue
        s, n = bl[0]
        c.ensure(t_, 'the block is as long as its content', n == 8 + 64 + 8 * pl + 58 + 64 * cnt)
        a.layout(t_, 'file entry', path_fields(c, s, n, 1, K) + tail(s))
        ok = len(log) == 1 and log[0][0] == 'set'
        c.ensure(t_, 'the path is entered once', z3.BoolVal(ok))
        if ok:
            c.ensure(t_, 'the path finds the block', log[0][2] == s)
            q, m = log[0][3]
            c.ensure(t_, 'the path finds the blob ids', z3.And(z3.BoolVal(isinstance(q, Ptr) and q.obj is ids and q.c == 0 and not q.ix), m == cnt))


@trust('hz_validate_path: contract verified in C16')
def h_validate(eng, st, k):
    bad = st.fork()
    return [(st, None), Throw(bad, 'UtilErrors::ValidationError')]


def use_rm_mstate(c, a, hook):
    @trust('hza_rm_mstate: contract verified in C24')
    def h(eng, st, k):
        if k.args[0].obj is not a.a:
            raise Structure('another archive')
        return hook(eng, st, k.args[1])
    c.handle(re.compile(r'^HZ_Archive::hza_rm_mstate\('), h)


def contract_change(c, a, eng, st, grow=False):
    """a call that keeps the free list in order and all live data in place"""
    nf = a.nf(st)
    eng.require(st, z3.Implies(z3.And(0 <= a.K, a.K < nf), z3.And(*a.inv(st, a.K).values())), 'precondition', label='free list in order at the call')
    eng.require(st, a.pairwise(st, a.J, a.K), 'precondition', label='free fragments disjoint at the call')
    V, N = st.ghost['V'], st.ghost['N']
    for g in ('V', 'N', 'FS', 'FL'):
        st.setg(g, eng.freshc(g, z3.ArraySort(I, I)))
    V2, N2 = st.ghost['V'], st.ghost['N']
    n2 = eng.fresh(st, 'fragments', 64)
    st.assume(n2 < 1 << 33)
    st.setg('nf', n2)
    st.setg('pos', eng.fresh(st, 'pos', 64))
    if grow:
        e = eng.fresh(st, 'eof', 64)
        st.assume(e >= a.eof(st), e <= a.eof(st) + (1 << 40))
        eng.poke(st, Ptr(a.a, a.o['eof']), 64, e)
    for q, w in st.ghost['live']:
        a.at(st, lambda x, q=q, w=w: z3.Implies(z3.And(q <= x, x + Sel(N, x) <= q + w), z3.And(Sel(V2, x) == Sel(V, x), Sel(N2, x) == Sel(N, x))))


def u_install(c):
    import strs
    strs.install(c)
    a = start(c)
    o = c.o
    p = path_(c)
    tr = auxs(c, a)
    ih0, io = a.map(c.st, 'inv_aux', 1)
    ms = c.cells('mstate', o['msize'])
    K, pl = a.K, c.pl
    c.handle(re.compile(r'^hz_validate_path\('), h_validate)
    mid = c.sym('new_id', 64)

    @trust('hza_write_mstate: contract verified in C23')
    def wm(eng, st, k):
        if k.args[0].obj is not a.a or eng.peekp(st, k.args[1]).obj is not ms:
            raise Structure('writes another model state')
        if st.ghost.get('wrote'):
            raise Structure('writes the model state twice')
        contract_change(c, a, eng, st, True)
        s, n = eng.fresh(st, 'space', 64), eng.fresh(st, 'length', 64)
        st.assume(0xC0 <= n, n < 1 << 40, s + 0x48 + n <= a.eof(st))
        for q, w in st.ghost['live']:
            st.assume(disj(s, 0x48 + n, q, w))
        st.assume(z3.And(*[a.tok(st, *f) for f in mstate_head(s, n, mid, 0, 0)[:3]]))
        st.setg('live', st.ghost['live'] + ((s, 0x48 + n),))
        st.setg('wrote', (s, n))
        a.assume_inv(st)
        return mid
    c.handle(re.compile(r'^HZ_Archive::hza_write_mstate\('), wm)
    c.args = [Ptr(a.a), p, Ptr(obj_ptr(c, ms, 'arg'))]
    tail = lambda s: [(s + 144 + 8 * pl, 64, mid)]
    a.extra = lambda st: sum([[s + 80, s + 144 + 8 * K, s + 144 + 8 * pl] for s, _ in st.ghost.get('blocks', ())], []) + sum([[s, s + 8, s + 72] for s, _ in st.ghost['live'][1:]], [])

    def t(L, v):
        st = L.st
        d = {'in range': v <= pl, **a.kept(L)}
        for s, n in st.ghost.get('blocks', ()):
            d['position'] = st.ghost['pos'] == s + 144 + 8 * v
            d['path so far'] = z3.Implies(z3.And(0 <= K, K < v), a.tok(st, s + 144 + 8 * K, 8, Sel(c.PA, K)))
        return d
    c.auto(t, hi=pl)
    yield
    for t_ in c.terminals:
        log = t_.ghost[tr.log]
        if t_.done != 'ret':
            if 'ValidationError' not in str(t_.exc[0]):
                c.ensure(t_, 'the only error is an existing entry', z3.And(z3.BoolVal('InvalidOperation' in str(t_.exc[0]) and not log), tr.has0))
            c.ensure(t_, 'and nothing is written', z3.BoolVal(t_.ghost['V'].eq(a.V0) and not t_.ghost.get('blocks') and not t_.ghost.get('wrote')))
            continue
        c.ensure(t_, 'there was no such entry', z3.Not(tr.has0))
        c.ensure(t_, 'the model state is written', z3.BoolVal(bool(t_.ghost.get('wrote'))))
        bl = a.block_done(t_)
        a.ensure_inv(t_)
        a.live_kept(t_)
        if len(bl) != 1 or not t_.ghost.get('wrote'):
            continue
        s, n = bl[0]
        ws, wn = t_.ghost['wrote']
        c.ensure(t_, 'the model state is still there', z3.And(*[a.tok(t_, *f) for f in mstate_head(ws, wn, mid, 0, 0)[:3]]))
        c.ensure(t_, 'the block is as long as its content', n == 8 + 64 + 8 * pl + 64)
        a.layout(t_, 'model state entry', path_fields(c, s, n, 2, K) + tail(s))
        ok = len(log) == 1 and log[0][0] == 'set'
        c.ensure(t_, 'the path is entered once', z3.BoolVal(ok))
        if ok:
            c.ensure(t_, 'the path finds the block', log[0][2] == s)
            c.ensure(t_, 'the path finds the model state', log[0][3] == mid)
        c.ensure(t_, 'the model state is marked as having a path', Sel(a.has(t_, 'inv_aux'), mid))


def u_uninstall(c):
    import strs
    strs.install(c)
    a = start(c, False)
    o = c.o
    p = path_(c)
    tr = auxs(c, a)
    ih0, io = a.map(c.st, 'inv_aux', 1)
    K = a.K
    c.handle(re.compile(r'^hz_validate_path\('), h_validate)
    mid, s, n = c.sym('id', 64), c.sym('sof', 64), c.sym('length', 64)
    tr.entry = {0: (64, mid), tr.sof: (64, s)}
    a.extra = lambda st: [s, s + 8]
    c.st.setg('live', c.st.ghost['live'] + ((s, 0x48 + n),))
    a.taken(s, n)
    a.assume_inv(c.st)
    a.has_layout([(s, 8, METADATA), (s + 8, 64, n)])

    def hook(eng, st, id_):
        eng.require(st, id_ == mid, 'precondition', label='removes the model state of this path')
        if st.ghost.get('removed') or st.ghost.get('pushed'):
            raise Structure('model state removed at another time')
        bad = st.fork()
        contract_change(c, a, eng, st)
        a.assume_inv(st)
        st.setg('removed', True)
        return [(st, None), Throw(bad, 'ArchiveErrors::InvalidOperationException')]
    use_rm_mstate(c, a, hook)
    c.args = [Ptr(a.a), p]
    yield
    for t in c.terminals:
        log = t.ghost[tr.log]
        if t.done != 'ret':
            c.ensure(t, 'an error leaves everything in place', z3.BoolVal(t.ghost['V'].eq(a.V0) and not log and not t.ghost.get('pushed')))
            continue
        c.ensure(t, 'the entry existed', tr.has0)
        c.ensure(t, 'the model state is removed', z3.BoolVal(bool(t.ghost.get('removed'))))
        push = t.ghost.get('pushed', ())
        freed(c, t, push, s, n)
        t.ghost = dict(t.ghost)
        t.ghost['live'] = t.ghost['live'][:1]
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'the path is gone', z3.BoolVal(log == (('erase',),)))
        c.ensure(t, 'and its mark', z3.Not(Sel(a.has(t, 'inv_aux'), mid)))
        c.ensure(t, 'end of file kept', a.eof(t) == a.eof0)


def u_remove(c):
    import strs
    strs.install(c)
    a = start(c, False)
    o = c.o
    p = path_(c)
    tr = files(c, a)
    K = a.K
    c.handle(re.compile(r'^hz_validate_path\('), h_validate)
    s, n, cnt = c.sym('sof', 64), c.sym('length', 64), c.sym('blobs', 64)
    c.assume(cnt < LIM)
    ids = c.array('ids', 8, cnt)
    D = c.arr(ids)
    tr.entry = {o['f_ids']: ('p', Ptr(ids)), o['f_n']: (64, cnt), tr.sof: (64, s)}
    a.extra = lambda st: [s, s + 8]
    a.taken(s, n)
    a.has_layout([(s, 8, METADATA), (s + 8, 64, n)])
    c.st.setg('gone', z3.IntVal(0))
    c.st.setg('freed', z3.BoolVal(False))

    @trust('hza_rm_blob: contract verified in C24')
    def rb(eng, st, k):
        g = st.ghost['gone']
        eng.require(st, z3.And(g < cnt, k.args[1] == Sel(D, g)), 'precondition', label='removes each blob of the file once')
        push = st.ghost.get('pushed', ())
        st.setg('gone', g + 1)
        bad = st.fork()
        contract_change(c, a, eng, st)
        a.assume_inv(st)
        return [(st, None), Throw(bad, 'ArchiveErrors::BlobNotFoundException')]
    c.handle(re.compile(r'^HZ_Archive::hza_rm_blob\('), rb)
    c.args = [Ptr(a.a), p]

    def t(L, v):
        return {'in range': v <= cnt, 'so many removed': L.st.ghost['gone'] == v, **a.kept(L)}
    c.auto(t, hi=cnt)
    yield
    for t in c.terminals:
        log = t.ghost[tr.log]
        push = t.ghost.get('pushed', ())
        if t.done != 'ret':
            if 'BlobNotFound' not in str(t.exc[0]):
                c.ensure(t, 'an error before the removal leaves everything in place', z3.BoolVal(t.ghost['V'].eq(a.V0) and not log and not push))
            continue
        c.ensure(t, 'the entry existed', tr.has0)
        freed(c, t, push, s, n)
        c.ensure(t, 'every blob of the file is removed', t.ghost['gone'] == cnt)
        a.ensure_inv(t)
        a.live_kept(t)
        c.ensure(t, 'the path is gone', z3.BoolVal(log == (('erase',),)))
        c.ensure(t, 'end of file kept', a.eof(t) == a.eof0)


UNITS = (('model state is written', 'd_wm', u_write_mstate, {'no_termination': True}), ('model state is read', 'd_rm', u_read_mstate, {}),
         ('blob is written', 'd_wb', u_write_blob, {'no_termination': True}), ('blob is read', 'd_rb', u_read_blob, {}),
         ('model state is removed', 'd_xm', u_rm_mstate, {}), ('blob is removed', 'd_xb', u_rm_blob, {}), ('file entry is written', 'd_entry', u_entry, {}),
         ('model state is installed', 'd_install', u_install, {}), ('model state is uninstalled', 'd_uninstall', u_uninstall, {}), ('file is removed', 'd_remove', u_remove, {}))


def register(P, *names):
    """units by name; the same obligations may back more than one property"""
    for nm, drv, body, opts in UNITS:
        if nm in names:
            P.unit(nm, drv, 'a', mode='int', opts=dict(opts))(body)
