import sys, time, importlib, tempfile, shutil, traceback
sys.path.insert(0, '/verif'); sys.setrecursionlimit(100000)
from qmv import ir, build, registry, dsl
from qmv.exec import Engine
from qmv.core import Unsupported
def main():
    modname = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
    v = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    lo = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    m = importlib.import_module('contracts.' + modname)
    w = tempfile.mkdtemp()
    try:
        t = time.time(); txt = build.module_text(m.UNITS, w); print('build %.1fs' % (time.time() - t))
    finally: shutil.rmtree(w)
    mod = ir.Module(txt)
    dem = ir.demangle(list(mod.funcs)); inv = {v: k for k, v in dem.items()}
    for c in registry.ALL.values():
        c.cname = inv.get(c.dem)
    for c in list(registry.ALL.values()):
        if c.kind == 'lemma':
            if pat in c.dem and c.fn.__module__ == m.__name__:
                eng = Engine(mod, {}, opts={'verbose': v}); c.prove(eng); print('LEMMA', c.dem[:80], [o.status for o in eng.obls])
            continue
        if c.trusted or pat not in c.dem or c.spec.__module__ != m.__name__: continue
        if c.cname is None: print('MISSING', c.dem); continue
        eng = Engine(mod, {k: x for k, x in registry.ALL.items() if x.cname}, opts={'verbose': v, 'loops': lo})
        t = time.time()
        try:
            ctx, reach, nr = dsl.verify(eng, c)
            bad = [o for o in eng.obls if o.status != 'proved']
            print('%-5s %s: %d obls, %d failed, reach %d/%d  %.1fs inl=%s called=%s' % ('OK' if not bad and reach else 'FAIL', c.dem[:90], len(eng.obls), len(bad), reach, nr, time.time() - t, len(eng.inlined), len(eng.called)), flush=True)
        except (Unsupported, dsl.ContractError) as e:
            print('UNSUP %s: %s [%s] %.1fs' % (c.dem[:90], e, eng.where, time.time() - t), flush=True)
            if v > 1: traceback.print_exc()
        except Exception as e:
            print('CRASH %s [%s]' % (c.dem[:90], eng.where)); traceback.print_exc()
main()
from qmv import core
print('MERGEBOTH', core.MERGEBOTH)
