"""Assumed contracts on the C/C++ runtime (trusted, listed in the evidence)."""
import re
import z3
from eng import Ptr, NULL, FnPtr, Opaque, Cells, Arr, OState, Throw, Kill, Structure, LinOff
from dom import Unsupported


def rx(s):
    return re.compile(s)


def nop(eng, st, c):
    return None if c.ret == ('void',) else (st.frames and Opaque('r'))


def trust(t):
    def d(f):
        f.trust = t
        return f
    return d


@trust('operator new: fresh block of the requested size, never null')
def op_new(eng, st, c):
    n = c.args[0]
    return Ptr(alloc(eng, st, n, 'new@' + (eng.site(st) or '')))


def alloc(eng, st, n, name, zero=False):
    if isinstance(n, LinOff):
        n = eng.intv(st, n)
    cn = eng.dom.cval(n)
    if cn is not None:
        return eng.newobj(st, name, [Cells(0, cn, fill=0 if zero else None)])
    o = eng.newobj(st, name, [])
    cnt, S = None, None
    n2 = z3.simplify(n)
    if z3.is_mul(n2) and n2.num_args() == 2 and eng.dom.cval(n2.arg(0)) is not None:
        S, cnt = eng.dom.cval(n2.arg(0)), n2.arg(1)
    elif n.decl().kind() in (z3.Z3_OP_BMUL,) and eng.dom.cval(n.arg(1)) is not None:
        S, cnt = eng.dom.cval(n.arg(1)), n.arg(0)
    elif n2.decl().kind() == z3.Z3_OP_CONCAT and eng.dom.cval(n2.arg(n2.num_args() - 1)) == 0:
        k = n2.arg(n2.num_args() - 1).size()
        S, cnt = 1 << k, z3.LShR(n2, k)
    E = eng.opts.get('alloc_elem')
    if callable(E):
        g = S
        if g is None and z3.is_int(n2):
            # a linear size: the element size is the common factor of its coefficients
            import math
            g = 0
            for x in (n2.children() if z3.is_add(n2) else [n2]):
                v = eng.dom.cval(x)
                g = math.gcd(g, v if v is not None else eng.dom.cval(x.arg(0)) or 1 if z3.is_mul(x) else 1)
        E = E(g)
    if E:
        # the unit says what its blocks hold: element arrays exist from the start (contents unknown)
        if S is not None and S % E == 0:
            m = cnt * (S // E) if S != E else cnt
        else:
            m = eng.udiv_ix(n, E)
        a = eng.freshc('new', z3.ArraySort(eng.dom.ix, eng.dom.sort(E * 8)))
        if eng.mode == 'int':
            from eng import rngfa
            st.fa.append(rngfa(eng, a, E))
        st.mem[o.oid] = OState([Arr(0, E, z3.simplify(m), {0: (E, a)})], True, None)
        eng.allocs.append(o)
        return o
    st.mem[o.oid] = OState([Arr(0, S or 1, cnt if cnt is not None else n, {})], True, (n, cnt, S))
    eng.allocs.append(o)
    return o


@trust('operator delete: releases the block')
def op_delete(eng, st, c):
    p = c.args[0]
    if isinstance(p, Ptr) and p.obj is not None and p.obj.oid in st.mem:
        os = st.mem[p.obj.oid]
        if not os.alive:
            eng.oblig(st, z3.BoolVal(False), 'no-double-free')
            raise Kill()
        if eng.opts.get('free', True):
            os = os.copy()
            os.alive = False
            st.mem[p.obj.oid] = os
    return None


@trust('C++ runtime: exception allocation and throw')
def cxa_alloc(eng, st, c):
    n = eng.dom.cval(c.args[0])
    return Ptr(eng.newobj(st, 'exception', [Cells(0, n)]))


def cxa_throw(eng, st, c):
    ti = c.args[1]
    name = eng.ti_name(ti.obj.name[1:]) if isinstance(ti, Ptr) else '?'
    return [Throw(st, name, c.args[0])]


def cxa_begin(eng, st, c):
    return c.args[0]


def cxa_rethrow(eng, st, c):
    return [Throw(st, st.exc[0], st.exc[1])]


@trust('std::terminate / abort does not return')
def noreturn(eng, st, c):
    eng.oblig(st, z3.BoolVal(False), 'no-terminate', label='no abort/terminate')
    raise Kill()


def throws(name):
    def h(eng, st, c):
        return [Throw(st, name)]
    h.trust = 'library error path throws ' + name
    return h


@trust('std::string construction/concatenation/destruction has no effect on program state other than the string')
def str_opaque(eng, st, c):
    # sret or constructor: mark the destination object as an opaque string
    if c.args and isinstance(c.args[0], Ptr) and c.args[0].obj is not None:
        p = c.args[0]
        os, ri, r = eng.access(st, p, 8, 'string')
        if r.kind == 'cells':
            d = {o: x for o, x in r.d.items() if not (p.c <= o < p.c + 32)}
            os = os.copy()
            os.regs[ri] = Cells(r.start, r.length, d, r.fill)
            st.mem[p.obj.oid] = os
            if st.wlog is not None:
                st.wlog.add(('cell', p.obj.oid, ri, p.c, 32))
    return Opaque('str') if c.ret != ('void',) else None


@trust('logging has no effect on program state')
def log_nop(eng, st, c):
    return Opaque('log') if c.ret != ('void',) else None


def memcmp_h(eng, st, c):
    return eng.fresh(st, 'memcmp', 32)


BASE = [
    ('operator new(unsigned long)', op_new), ('operator new[](unsigned long)', op_new),
    ('operator delete(void*)', op_delete), ('operator delete[](void*)', op_delete),
    ('operator delete(void*, unsigned long)', op_delete), ('operator delete[](void*, unsigned long)', op_delete),
    ('operator delete(void*, std::align_val_t)', op_delete), ('free', op_delete), ('malloc', op_new),
    ('__cxa_allocate_exception', cxa_alloc), ('__cxa_throw', cxa_throw), ('__cxa_begin_catch', cxa_begin),
    ('__cxa_end_catch', nop), ('__cxa_rethrow', cxa_rethrow), ('__cxa_free_exception', nop), ('__cxa_throw_bad_array_new_length', throws('std::bad_array_new_length')),
    ('__clang_call_terminate', noreturn), ('std::terminate()', noreturn), ('abort', noreturn), ('exit', noreturn),
    (rx(r'^loguru::'), log_nop),
    (rx(r'std::__throw_bad_alloc'), throws('std::bad_alloc')),
    (rx(r'std::__throw_bad_array_new_length'), throws('std::bad_array_new_length')),
    (rx(r'std::__throw_length_error'), throws('std::length_error')),
    (rx(r'std::__throw_out_of_range'), throws('std::out_of_range')),
    (rx(r'std::__throw_logic_error'), throws('std::logic_error')),
    (rx(r'std::__throw_bad_function_call'), throws('std::bad_function_call')),
    (rx(r'^std::exception::'), nop),
    (rx(r'^std::runtime_error::'), nop), (rx(r'^std::logic_error::'), nop), (rx(r'^std::invalid_argument::'), nop),
    (rx(r'^std::allocator<char>::(~)?allocator'), nop),
]

STRING = [
    (rx(r'^std::__cxx11::basic_string<char.*>::(~)?basic_string(<.*>)?\('), str_opaque),
    (rx(r'^std::__cxx11::basic_string<char.*>& std::__cxx11::basic_string|^std::__cxx11::basic_string<char.*>::operator=\('), str_opaque),
    (rx(r'^std::__cxx11::basic_string<char.*> std::operator\+'), str_opaque),
    (rx(r'^std::__cxx11::to_string'), str_opaque), (rx(r'^std::to_string'), str_opaque),
    (rx(r'^std::__cxx11::basic_string<char.*>::(append|operator\+=|assign|push_back)'), str_opaque),
]

KEEP = re.compile(r'basic_string<.*>::(~)?basic_string|std::operator\+|to_string|::operator=\(.*basic_string|::append|::assign|std::mutex|condition_variable|unique_lock|scoped_lock|lock_guard|std::unordered_map|std::__throw')
