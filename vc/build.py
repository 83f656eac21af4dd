"""Mechanical extraction: clang emits LLVM IR for /repo's current sources."""
import hashlib, os, re, subprocess, shutil, time
from ir import Module, demangle

REPO = os.environ.get('HZ_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'
INC = ['-I' + os.path.join(VERIF, 'stubs/vc'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'other/loguru/include'),
       '-I' + os.path.join(REPO, 'other/argparse/include')]


class ExtractError(Exception):
    pass


def sh(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    return p


def compile_ll(name, src=None, text=None, defines=(), flags=(), keep=None, lang='c++', inline=True, select=False):
    """-> (Module, info).  src: path relative to /repo; text: a driver TU that includes repo headers"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, 'ir-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    a = os.path.join(d, name + '.ll')
    if text is not None:
        path = os.path.join(d, name + ('.cl' if lang == 'cl' else '.cpp'))
        open(path, 'w').write(text)
    else:
        path = os.path.join(REPO, src)
    if not os.path.exists(path):
        raise ExtractError('source missing: ' + path)
    common = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-discard-value-names', '-S', '-emit-llvm',
              '-o', a, '-w']
    if lang == 'cl':
        cmd = ['clang-18', '-x', 'cl', '-cl-std=CL2.0', '-target', 'spir64-unknown-unknown', '-Xclang', '-finclude-default-header'] + common
    else:
        cmd = [CLANG, '-std=c++20', '-fno-strict-aliasing'] + common + INC
    cmd += ['-D' + x for x in defines] + list(flags) + [path]
    t0 = time.time()
    p = sh(cmd)
    if p.returncode:
        raise ExtractError('clang failed on %s:\n%s' % (path, p.stderr[-3000:]))
    s = open(a).read()
    if inline:
        s = mark_inline(s, keep)
    b = os.path.join(d, name + '.opt.ll')
    open(a, 'w').write(s)
    # select: conditional expressions without side effects become select instructions (fewer paths)
    fp = 'function(sroa,instsimplify,dce%s)' % (',simplifycfg<no-keep-loops;no-hoist-common-insts;no-sink-common-insts>,instsimplify,dce' if select else '')
    p = sh(['opt-18', '-S', '-passes=always-inline,function(sroa,instsimplify,dce),cgscc(inline<only-mandatory>),' + fp, a, '-o', b])
    if p.returncode:
        raise ExtractError('opt failed on %s:\n%s' % (path, p.stderr[-2000:]))
    txt = open(b).read()
    m = Module(txt)
    info = dict(name=name, cmd=' '.join(cmd), source=path, lines=txt.count('\n'), secs=round(time.time() - t0, 2))
    shutil.rmtree(d, ignore_errors=True)
    return m, info


def mark_inline(s, keep):
    """small straight-line library helpers are inlined by LLVM before the engine sees them"""
    lines = s.split('\n')
    defs = []
    i = 0
    while i < len(lines):
        if lines[i].startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*\(', lines[i])
            defs.append((i, j, m.group(1).strip('"')))
            i = j
        i += 1
    dem = demangle([d[2] for d in defs])
    for (i, j, n), dm in zip(defs, dem):
        if 'alwaysinline' in lines[i]:
            continue
        body = lines[i + 1:j]
        head = re.sub(r'^(?:[\w:&*<> ]+ )?', '', dm)
        lib = n.startswith(('_ZNSt', '_ZNKSt', '_ZSt', '_ZN9__gnu_cxx', '_ZNK9__gnu_cxx', '_ZN7rainman', '_ZNK7rainman', '_ZStge', '_ZSteq')) or '__gnu_cxx' in n[:30]
        if not lib or (keep and keep.search(dm)):
            continue
        n_i = sum(1 for x in body if x.startswith('  '))
        if n_i > 60 or any(' switch ' in x or 'resume' in x for x in body):
            continue
        # no loops: labels only jumped to forwards
        pos = {}
        for k, x in enumerate(body):
            mm = re.match(r'^"?([-\w$.]+)"?:', x)
            if mm:
                pos[mm.group(1)] = k
        loop = False
        for k, x in enumerate(body):
            for t in re.findall(r'label %"?([-\w$.]+)"?', x):
                if pos.get(t, 10**9) <= k:
                    loop = True
        if loop or '@' + n + '(' in '\n'.join(body):
            continue
        lines[i] = re.sub(r'(\) (?:local_)?unnamed_addr|\)) (#\d+)', r'\1 alwaysinline \2', lines[i], count=1)
    return '\n'.join(lines)


def kernel_text(path):
    """the .cl files are C++ raw string literals: drop the R"( ... )" wrapper, nothing else"""
    p = os.path.join(REPO, path)
    if not os.path.exists(p):
        raise ExtractError('source missing: ' + p)
    s = open(p).read()
    m = re.match(r'\s*R"(\w*)\((.*)\)\1"\s*$', s, re.S)
    return m.group(2) if m else s
