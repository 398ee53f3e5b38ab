from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.fft import *
UNITS = ['dsp/transforms/DCT.cpp'] + UNITS
D = 'class.DCT'
def dct(c):
    o = c.this(D); src = c.arr(); dst = c.arr(); n = o.m_n
    d = o.obj('m_fft', 'class.FFTReal').pobj('m_d', 'class.FFTReal::D')
    t, fr, fi, s = [o.vec(x, DOUBLE) for x in ('m_time2', 'm_freq2r', 'm_freq2i', 'm_scaled')]
    c.requires(And(n >= 1, n <= 2**20, d.m_n == 4 * n, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1), t.size == 4 * n, fr.size == 4 * n, fi.size == 4 * n, s.size == n), 'class invariant')
    c.valid(src, n); c.valid(dst, n)
    m = d.arr('m_c', CPX, 4 * n)
    for f in 'ri': c.assigns(m.f(f), None, 0, 4 * n)
    return o, src, dst, n, t, fr, fi, s
def extended(n, x):
    """the odd positions of 4n samples hold x and its mirror, the even ones zero"""
    return lambda j: If(j % 2 == 0, 0, If(j < 2 * n, x((j - 1) / 2), x((4 * n - j - 1) / 2)))
@contract('DCT::forward(double const*, double*)', 'C02')
def _(c):
    o, src, dst, n, t, fr, fi, s = dct(c)
    X = extended(n, lambda j: src[j])
    c.assigns(t, X, 0, 4 * n); c.assigns(fr, None, 0, 4 * n); c.assigns(fi, None, 0, 4 * n)
    c.assigns(dst, lambda k: rdft_re(4 * n, k, X), 0, n)
@contract('DCT::forwardUnitary(double const*, double*)', 'C02')
def _(c):
    o, src, dst, n, t, fr, fi, s = dct(c)
    c.requires(o.m_scale > 0, 'class invariant: scale factor')
    X = extended(n, lambda j: src[j]); sq = uf('sqrt', 1)
    c.assigns(t, X, 0, 4 * n); c.assigns(fr, None, 0, 4 * n); c.assigns(fi, None, 0, 4 * n)
    c.assigns(dst, lambda k: If(k == 0, rdft_re(4 * n, k, X) / o.m_scale / sq(RealVal(2)), rdft_re(4 * n, k, X) / o.m_scale), 0, n)
def spectrum(n, x): return lambda j: If(j == n, 0, If(j < n, x(j), -x(2 * n - j)))
ZERO = lambda j: RealVal(0)
def inverse(c, o, n, x, dst, t, fr, fi):
    c.assigns(fr, spectrum(n, x), 0, 2 * n + 1); c.assigns(fi, ZERO, 0, 2 * n + 1)
    T = lambda k: irdft(4 * n, k, spectrum(n, x), ZERO) * (1 / z3.ToReal(4 * n))
    c.assigns(t, T, 0, 4 * n)
    c.assigns(dst, lambda k: T(2 * k + 1), 0, n)
@contract('DCT::inverse(double const*, double*)', 'C02')
def _(c):
    o, src, dst, n, t, fr, fi, s = dct(c)
    inverse(c, o, n, lambda j: src[j], dst, t, fr, fi)
@contract('DCT::inverseUnitary(double const*, double*)', 'C02')
def _(c):
    o, src, dst, n, t, fr, fi, s = dct(c); sq = uf('sqrt', 1)
    X = lambda j: If(j == 0, src[0] * o.m_scale * sq(RealVal(2)), src[j] * o.m_scale)
    c.assigns(s, X, 0, n)
    inverse(c, o, n, X, dst, t, fr, fi)

@contract('DCT::DCT(int)', 'C02')
def _(c):
    o = c.this(D, ctor=True); n = c.int(); c.requires(And(n >= 1, n <= 2**20), 'length')
    N = o.new; rn = z3.ToReal(n)
    c.ensures('length and scale', lambda: And(N.m_n == n, N.m_scale == rn * uf('sqrt', 1)(2 / rn)))
    c.ensures('work memory', lambda: And(*[N.vec(x, DOUBLE).size == 4 * n for x in ('m_time2', 'm_freq2r', 'm_freq2i')], N.vec('m_scaled', DOUBLE).size == n))
    c.ensures('transform of four times the length', lambda: madefft(c, N.obj('m_fft', 'class.FFTReal'), 4 * n))
