"""Extraction: compile the current sources of /repo with clang to LLVM IR (the
text that is verified) and link the units of a property into one module."""
import os, subprocess, tempfile, shutil, concurrent.futures, hashlib
REPO = os.environ.get('QMV_REPO', '/repo')
CXX = '/usr/bin/clang++'; CC = '/usr/bin/clang'
DEFS = ['-DNDEBUG', '-DUSE_PTHREADS', '-Dkiss_fft_scalar=double', '-DNO_BLAS_WRAP', '-DADD_']
def incs(repo=None):
    r = repo or REPO
    return ['-I' + r + x for x in ('', '/include', '/ext/kissfft', '/ext/kissfft/tools', '/ext/clapack/include', '/ext/cblas/include')]

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def to_ir(src, out):
    full = src if src.startswith('/') else os.path.join(REPO, src)
    cxx = full.endswith(('.cpp', '.cc', '.cxx'))
    cmd = [CXX, '-std=c++98'] if cxx else [CC, '-std=gnu89', '-Wno-everything']
    run(cmd + ['-w', '-O0', '-g', '-ffp-contract=off', '-Xclang', '-debug-info-kind=limited', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names'] + DEFS + incs() + ['-S', '-emit-llvm', full, '-o', out + '.0.ll'])
    return out + '.0.ll'

PASSES = 'function(sroa,simplifycfg,loop-simplify)'

def module_text(units, work):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda iu: to_ir(iu[1], os.path.join(work, 'u%d' % iu[0])), enumerate(units)))
    linked = os.path.join(work, 'all.ll')
    if len(outs) == 1: linked = outs[0]
    else: run(['/usr/lib/llvm-18/bin/llvm-link' if os.path.exists('/usr/lib/llvm-18/bin/llvm-link') else 'llvm-link', '-S', '-o', linked] + outs)
    fin = os.path.join(work, 'fin.ll')
    run(['/usr/bin/opt', '-S', '-passes=' + PASSES, linked, '-o', fin])
    with open(fin) as f: txt = f.read()
    return type_aliases(outs, txt) + txt

def type_aliases(outs, txt):
    """llvm-link merges structurally equal types under one of their names: list the names that disappeared"""
    import re
    tyre = re.compile(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', re.M)
    have = {n.strip('"'): b for n, b in tyre.findall(txt)}
    lost = {}
    for o in outs:
        with open(o) as f: t = f.read()
        for n, b in tyre.findall(t):
            n = n.strip('"')
            if n not in have and b != 'opaque': lost.setdefault(n, b)
    alias = {}
    norm = lambda b: re.sub(r'%("[^"]*"|[-a-zA-Z$._0-9]+)', lambda m: '%' + alias.get(m.group(1).strip('"'), m.group(1).strip('"')), b)
    for rnd in range(6):
        new = False
        bodies = {}
        for n, b in have.items(): bodies.setdefault(norm(b), n)
        for n, b in lost.items():
            if n not in alias and norm(b) in bodies: alias[n] = bodies[norm(b)]; new = True
        if not new: break
    return ''.join('; QMVALIAS %s => %s\n' % kv for kv in sorted(alias.items()))
