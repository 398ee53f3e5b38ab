from qmv.dsl import *
from qmv.registry import contract, lemma
UNITS = ['maths/CosineDistance.cpp', 'maths/KLDivergence.cpp', 'maths/Correlation.cpp', 'dsp/rhythm/BeatSpectrum.cpp']
V = 'std::vector<double, std::allocator<double> > const&'
SQRT = uf('sqrt', 1); LOG10 = uf('log10', 1)
small = toz(1e-20)
def rabs(x): return If(x >= 0, x, -x)

def cosdist(a, b):
    n = a.size
    dot = Sum(0, n, lambda i: a[i] * b[i]); na = Sum(0, n, lambda i: a[i] * a[i]); nb = Sum(0, n, lambda i: b[i] * b[i])
    return If(n != b.size, RealVal(1), 1 - dot / (SQRT(rabs(na * nb)) + small))

@contract('CosineDistance::distance(%s, %s)' % (V, V), 'C20')
def _(c):
    o = c.this('class.CosineDistance'); a = c.vec(); b = c.vec()
    c.requires(And(a.size < 2**31, b.size < 2**31))
    c.free_fields(o, ['dist', 'dDenTot', 'dDen1', 'dDen2', 'dSum1'])
    c.result(cosdist(a, b))

@contract('KLDivergence::distanceGaussian(%s, %s, %s, %s)' % (V, V, V, V), 'C20')
def _(c):
    o = c.this('class.KLDivergence'); m1 = c.vec(); v1 = c.vec(); m2 = c.vec(); v2 = c.vec()
    n = m1.size
    c.requires(And(n < 2**31, v1.size >= n, m2.size >= n, v2.size >= n))
    # divisors must not vanish
    c.requires(And(forall(0, n, lambda k: v1[k] + small != 0), forall(0, n, lambda k: v2[k] + small != 0)), 'variances not -1e-20')
    def t(k):
        a = v1[k] + small; b = v2[k] + small; m = m1[k] - m2[k] + small
        return a / b + b / a + m * m * (1 / a + 1 / b)
    c.result(Sum(0, n, t) / 2 - z3.ToReal(n))

def kl(a, b, n): return Sum(0, n, lambda i: a[i] * LOG10((a[i] + small) / (b[i] + small)))
@contract('KLDivergence::distanceDistribution(%s, %s, bool)' % (V, V), 'C20')
def _(c):
    o = c.this('class.KLDivergence'); a = c.vec(); b = c.vec(); sym = c.bool()
    n = a.size
    c.requires(And(n < 2**31, Or(b.size == n, And(b.size > n, Not(sym)))))
    c.requires(And(forall(0, n, lambda i: a[i] >= 0), forall(0, b.size, lambda i: b[i] >= 0)), 'distributions are non-negative')
    c.result(kl(a, b, n) + If(sym, kl(b, a, n), RealVal(0)))

EPS = toz(2.2204e-016)
@contract('Correlation::doAutoUnBiased(double*, double*, int)', 'C20')
def _(c):
    o = c.this('class.Correlation'); src = c.arr(); dst = c.arr(); n = c.int()
    c.requires(n >= 0); c.valid(src, n); c.valid(dst, n)
    def v(i):
        s = Sum(i, n, lambda j: src[j - i] * src[j]) / z3.ToReal(n - i)
        return If(s <= 0, EPS, s)
    c.assigns(dst, v, 0, n)

@contract('BeatSpectrum::process(std::vector<std::vector<double, std::allocator<double> >, std::allocator<std::vector<double, std::allocator<double> > > > const&)', 'C20')
def _(c):
    out = c.outvec(); o = c.this('class.BeatSpectrum'); m = c.vec(VEC(DOUBLE)); c.ignore('CosineDistance::distance')
    c.requires(m.size < 2**31)
    c.requires(forall(0, m.size, lambda i: m[i].size < 2**31))
    sz = m.size / 2
    c.ensures('size', lambda: out.new.size == sz)
