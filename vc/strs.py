"""Assumed contracts of std::string, for units that reason about contents.
A string is 32 bytes: pointer to its characters, length, capacity.  Copies get their own block with the same characters."""
import re
from eng import *
STRKEEP = re.compile(r'basic_string<.*>::(~)?basic_string|std::operator\+|to_string|::operator=\(.*basic_string|::append|::assign|std::mutex|condition_variable|unique_lock|scoped_lock|lock_guard|std::unordered_map|std::__throw')


def mk(c, st, name, n, chars=None):
    """a string object of symbolic length n (with its terminating NUL)"""
    a = c.eng.new_arr(st, name, 1, n + 1, {0: chars} if chars is not None else None)
    st.assume(z3.Select(c.eng.arr(st, a), n) == c.eng.dom.const(0, 8))
    o = c.eng.newobj(st, name + '_str', [Cells(0, 32)])
    fill(c.eng, st, Ptr(o), a, n)
    return o, a


def fill(eng, st, p, a, n):
    os, ri, r = eng.access(st, p, 8, 'string')
    eng._store(st, os, ri, r, p, 8, Ptr(a), False)
    for off in (8, 16):
        eng.poke(st, p.add(off), 64, n)


def chars(eng, st, p):
    """(array, base index, length) of a string object, or None when it is opaque"""
    try:
        q = eng.peekp(st, p)
        n = eng.peek(st, p.add(8), 64)
    except (Unsupported, AttributeError, KeyError):
        return None
    if not isinstance(q, Ptr) or q.obj is None or not z3.is_expr(n):
        return None
    return q, n


def copy(eng, st, k):
    d, s = k.args[0], k.args[1]
    x = chars(eng, st, s)
    if x is None or x[0].c or x[0].ix:
        raise Unsupported('copy of an opaque string')
    q, n = x
    a = eng.arr(st, q.obj)
    b = eng.new_arr(st, 'copy', 1, n + 1, {0: a})
    fill(eng, st, d, b, n)


copy.trust = 'std::string copy construction: same characters in a block of its own'


def install(c):
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*> const&\)$'), copy)
    c.handle(re.compile(r'::basic_string\(std::.*basic_string<.*>&&\)$'), copy)
    nop = lambda eng, st, k: None
    nop.trust = 'std::string destruction'
    c.handle(re.compile(r'::~basic_string\('), nop)
