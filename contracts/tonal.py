from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = ['dsp/tonal/TonalEstimator.cpp', 'dsp/tonal/ChangeDetectionFunction.cpp', 'dsp/tonal/TCSgram.cpp']
EXP = uf('exp', 1); SQ = uf('sqrt', 1)
@contract('ChangeDetectionFunction::ChangeDetectionFunction(ChangeDFConfig)', 'C21')
def _(c):
    o = c.this('class.ChangeDetectionFunction', ctor=True); w = c.int()
    c.requires(And(w >= 0, w <= 40000))
    g = o.obj('m_vaGaussian', 'class.std::valarray'); ng = g.new
    n = 2 * w + 1; sig = z3.ToReal(n) / toz(2 * 2.3548)
    def val(i):
        x = z3.ToReal(i - w); return 1 / (sig * SQ(toz(2 * 3.14159265358979323846))) * EXP(-(x * x) / (2 * sig * sig))
    c.ensures('width', lambda: And(o.new.m_iFilterWidth == n, getattr(ng, "_M_size") == n, o.new.m_dFilterSigma == sig))
    c.ensures('gaussian', lambda: forall(0, n, lambda i: ng.arr('_M_data', DOUBLE, n)[i] == val(i)))

VA = 'class.std::valarray'
@contract('TonalEstimator::transform2TCS(ChromaVector const&)', 'C21')
def _(c):
    k, t, nm = c.nextarg('ptr')
    if c.mode == 'verify':
        r = c.region('ret!', 'class.TonalEstimator', IntVal(1)); r.undef = True; c.args[k] = Ptr(r, (('d', IntVal(0)),))
    ret = ObjV(c, c.args[k], 'class.TonalEstimator')
    c.free(ret); o = c.this('class.TonalEstimator')
    k, t, nm = c.nextarg('ptr')
    if c.mode == 'verify': c.args[k] = Ptr(c.region(nm, 'class.TonalEstimator', IntVal(1)), (('d', IntVal(0)),))
    ch = ObjV(c, c.args[k], 'class.TonalEstimator').obj('m_Basis', VA).arr('_M_data', DOUBLE, 12)
    rows = c.rows(o.obj('m_Basis', VA).arr('_M_data', VA, 6).f('_M_data'), 6, DOUBLE, 12)
    c.unroll(6, outer=True)
    new = ret.new.obj('m_Basis', VA)
    for i in range(6):
        c.ensures('coordinate %d' % i, lambda i=i: new.arr('_M_data', DOUBLE, 6)[i] == Sum(0, 12, lambda p: rows[i][p] * ch[p]))
    c.ensures('six coordinates', lambda: getattr(new, '_M_size') == 6)

SIN = uf('sin', 1); COS = uf('cos', 1); PI = toz(3.14159265358979323846)
@contract('TonalEstimator::TonalEstimator()', 'C21')
def _(c):
    o = c.this('class.TonalEstimator', ctor=True)
    c.unroll(12)
    b = o.new.obj('m_Basis', VA)
    def val(i, p):
        f, m = [(7.0 / 6.0, 1.0), (2.0 / 3.0, 0.6), (3.0 / 2.0, 1.1)][i // 2]
        a = toz(f) * p * PI
        return toz(m) * (SIN(a) if i % 2 == 0 else COS(a))
    for i in range(6):
        for p in range(12):
            c.ensures('basis %d %d' % (i, p), lambda i=i, p=p: c.rows(b.arr('_M_data', VA, 6).f('_M_data'), 6, DOUBLE, 12)[i][p] == val(i, p))
