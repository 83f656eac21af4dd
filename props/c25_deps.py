from core import *
from arch import *
from scan import register_scan
P = Property('C25', 'Model states in use are never removed')
P.modules = {'a': MODULE}


@P.unit('the check', 'd_deps', 'a', mode='int')
def deps(c):
    a = Archive(c)
    a.fixed()
    h, ob = a.map(c.st, 'dep')
    m = c.sym('id', 64)
    d0 = c.arr(ob)
    c.args = [Ptr(a.a), m]
    yield
    for t in c.terminals:
        if returns(c, t):
            c.ensure(t, 'in use means counted', (t.ret != 0 if not z3.is_bool(t.ret) else t.ret) == Sel(h, m))
            a.map_kept(t, 'dep', h, d0)


register(P, "model state is removed", "blob is removed", "blob is written", "model state is uninstalled", "model state is installed")
register_scan(P, 'archive is loaded', 'metadata block is loaded')
P.native = {'src': 'c25.cpp', 'repo': ['src/hzip_storage/archive/archive.cpp', 'src/hzip_core/blob/blob.cpp'], 'libs': ['-lcrypto'], 'secs': 6, 'tsecs': 60}
P.bounded = ['counting over whole histories (creation, removal, reload) against a model (sampled)']
