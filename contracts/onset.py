from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.pvoc import *
from contracts import pvoc, windows
from contracts.windows import dbl
UNITS = ['dsp/onsets/DetectionFunction.cpp'] + pvoc.UNITS
DF = 'class.DetectionFunction'; D = 'DetectionFunction::'
HFC, SPEC, PHASE, COMPLEX, BROAD = 1, 2, 3, 4, 5
SIN = uf('sin', 1); COS = uf('cos', 1); LG = uf('log10', 1)
def ab(x): return If(x >= 0, x, -x)
def st(c):
    o = c.this(DF); n = o.m_dataLength; h = o.m_halfLength
    c.requires(And(n >= 2, n <= 2**26, n % 2 == 0, h == n / 2 + 1), 'even frame length')
    return o, n, h
def hist(o, h): return o.arr('m_magHistory', DOUBLE, h), o.arr('m_phaseHistory', DOUBLE, h), o.arr('m_phaseHistoryOld', DOUBLE, h)
# definitions over the magnitudes and phases of the current frame and the stored history
def v_hfc(h, m): return Sum(0, h, lambda i: m(i) * z3.ToReal(i + 1))
def v_spec(h, m, M): return Sum(0, h, lambda i: SQ(ab(m(i) * m(i) - M[i] * M[i])))
def dev(t, P, Q): return lambda i: princ(t(i) - 2 * P[i] + Q[i])
def v_phase(h, t, P, Q): d = dev(t, P, Q); return Sum(0, h, lambda i: ab(d(i)))
def v_complex(h, m, t, M, P, Q):
    d = dev(t, P, Q)
    def term(i):
        re = M[i] - m(i) * COS(d(i)); im = m(i) * SIN(d(i)); return SQ(re * re + im * im)
    return Sum(0, h, term)
def v_broad(h, m, M, rise): return Sum(0, h, lambda i: If(And(M[i] > 0, 10 * LG(m(i) * m(i) / M[i]) > rise), RealVal(1), RealVal(0)))
def upd_mag(c, M, f, h): c.assigns(M, f, 0, h)
def upd_ph(c, t, P, Q, h): c.assigns(Q, lambda i: P[i], 0, h); c.assigns(P, t, 0, h)

def one(name, nargs, spec):
    @contract(D + name, 'C11', optional=True)
    def _(c):
        o, n, h = st(c); k = c.int(); a = [c.arr() for _ in range(nargs)]
        c.requires(k == h, 'number of bins')
        for x in a: c.valid(x, h)
        spec(c, o, h, [(lambda i, x=x: x[i]) for x in a], *hist(o, h))
one('HFC(int, double*)', 1, lambda c, o, h, a, M, P, Q: c.result(v_hfc(h, a[0])))
def _spec(c, o, h, a, M, P, Q): c.result(v_spec(h, a[0], M)); c.assigns(M, a[0], 0, h)
one('specDiff(int, double*)', 1, _spec)
def _ph(c, o, h, a, M, P, Q): c.result(v_phase(h, a[0], P, Q)); upd_ph(c, a[0], P, Q, h)
one('phaseDev(int, double*)', 1, _ph)
def _cx(c, o, h, a, M, P, Q): c.result(v_complex(h, a[0], a[1], M, P, Q)); upd_ph(c, a[1], P, Q, h); c.assigns(M, a[0], 0, h)
one('complexSD(int, double*, double*)', 2, _cx)
def _bb(c, o, h, a, M, P, Q): c.result(v_broad(h, a[0], M, o.m_dbRise)); c.assigns(M, lambda i: a[0](i) * a[0](i), 0, h)
one('broadband(int, double*)', 1, _bb)
def peak(o, m, K):
    def f(i):
        x = If(m(i) < K[i], m(i) + (K[i] - m(i)) * o.m_whitenRelaxCoeff, m(i)); return If(x < o.m_whitenFloor, o.m_whitenFloor, x)
    return f
def floor_ok(c, o): c.requires(And(o.m_whitenFloor > 0, o.m_whitenRelaxCoeff >= 0), 'whitening floor above zero')
@contract(D + 'whiten()', 'C11', optional=True)
def _(c):
    o, n, h = st(c); floor_ok(c, o); m = o.arr('m_magnitude', DOUBLE, h); K = o.arr('m_magPeaks', DOUBLE, h)
    p = peak(o, lambda i: m[i], K)
    c.assigns(K, p, 0, h); c.assigns(m, lambda i: m[i] / p(i), 0, h)
def run(c, o, h, m, t):
    """result and history update of one frame with magnitudes m and phases t"""
    ty = o.m_DFType; M, P, Q = hist(o, h)
    c.requires(And(ty >= 1, ty <= 5), 'a detection function type')
    c.result(If(ty == HFC, v_hfc(h, m), If(ty == SPEC, v_spec(h, m, M), If(ty == PHASE, v_phase(h, t, P, Q), If(ty == COMPLEX, v_complex(h, m, t, M, P, Q), v_broad(h, m, M, o.m_dbRise))))))
    c.assigns(M, lambda i: If(Or(ty == SPEC, ty == COMPLEX), m(i), If(ty == BROAD, m(i) * m(i), M[i])), 0, h)
    ph = Or(ty == PHASE, ty == COMPLEX)
    c.assigns(P, lambda i: If(ph, t(i), P[i]), 0, h); c.assigns(Q, lambda i: If(ph, P[i], Q[i]), 0, h)
@contract(D + 'runDF()', 'C11', optional=True)
def _(c):
    o, n, h = st(c); m = o.arr('m_magnitude', DOUBLE, h); t = o.arr('m_thetaAngle', DOUBLE, h)
    run(c, o, h, lambda i: m[i], lambda i: t[i])
def frame(c, o, n, h, re, im):
    """magnitudes and phases from the phase vocoder, then whitening, then the function"""
    floor_ok(c, o)
    v = o.pobj('m_phaseVoc', PV)
    c.requires(And(v.m_n == n), 'class invariant')
    ti, rr, ii, ph, un = arrs(v, n, h)
    for a in (ph, un, ti, rr, ii): c.assigns(a, None, 0, h if a is ph or a is un else n)
    m = o.arr('m_magnitude', DOUBLE, h); t = o.arr('m_thetaAngle', DOUBLE, h); u = o.arr('m_unwrapped', DOUBLE, h); K = o.arr('m_magPeaks', DOUBLE, h)
    raw = c.fold('PhaseVocoder::process', m, h, mag(re, im), 'raw'); T = c.fold('PhaseVocoder::process', t, h, lambda i: AT2(im(i), re(i)), 'phase'); w = o.m_whiten % 2 == 1
    pk = peak(o, raw, K); W = lambda i: If(w, raw(i) / pk(i), raw(i))
    c.assigns(K, lambda i: If(w, pk(i), K[i]), 0, h); c.assigns(m, W, 0, h); c.assigns(t, T, 0, h); c.assigns(u, None, 0, h)
    run(c, o, h, W, T)
    return v
@contract(D + 'processFrequencyDomain(double const*, double const*)', 'C11')
def _(c):
    o, n, h = st(c); re = c.arr(); im = c.arr(); c.valid(re, h); c.valid(im, h)
    frame(c, o, n, h, lambda i: re[i], lambda i: im[i])
@contract(D + 'processTimeDomain(double const*)', 'C11')
def _(c):
    o, n, h = st(c); x = c.arr(); c.valid(x, n)
    w = o.pobj('m_window', 'class.Window'); c.requires(w.m_size == n, 'class invariant'); wd = w.arr('m_cache', DOUBLE, n)
    v = o.pobj('m_phaseVoc', PV); d = v.pobj('m_fft', 'class.FFTReal').pobj('m_d', 'class.FFTReal::D')
    c.requires(And(d.m_n == n, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'class invariant')
    mc = d.arr('m_c', CPX, n)
    for f in 'ri': c.assigns(mc.f(f), None, 0, n)
    win = o.arr('m_windowed', DOUBLE, n); c.assigns(win, None, 0, n)
    y = lambda j: x[j] * wd[j]
    X = lambda j: If(j < n / 2, y(j + n / 2), y(j - n / 2))
    frame(c, o, n, h, lambda i: rdft_re(n, i, X), lambda i: rdft_im(n, i, X))
@contract(D + 'DetectionFunction(DFConfig)', 'C11', weight=2)
def _(c):
    o = c.this(DF, ctor=True); g = c.obj('struct.DFConfig'); n = g.frameLength; h = n / 2 + 1
    c.requires(And(n >= 2, n <= 2**26, n % 2 == 0, g.adaptiveWhitening >= 0, g.adaptiveWhitening <= 1), 'even frame length')
    N = o.new; zero = lambda a: (lambda: forall(0, h, lambda i: N.arr(a, DOUBLE, h)[i] == 0))
    c.ensures('configuration', lambda: And(N.m_dataLength == n, N.m_halfLength == h, N.m_DFType == g.DFType, N.m_stepSize == g.stepSize, N.m_dbRise == g.dbRise, (N.m_whiten != 0) == (g.adaptiveWhitening != 0)))
    c.ensures('whitening defaults', lambda: And(N.m_whitenRelaxCoeff == If(g.whiteningRelaxCoeff < 0, dbl(0.9997), g.whiteningRelaxCoeff), N.m_whitenFloor == If(g.whiteningFloor < 0, dbl(0.01), g.whiteningFloor)))
    for a in ('m_magHistory', 'm_phaseHistory', 'm_phaseHistoryOld', 'm_magPeaks'): c.ensures('cleared ' + a, zero(a))
    c.ensures('frame memory', lambda: And(*[x for a, k in (('m_magnitude', h), ('m_thetaAngle', h), ('m_unwrapped', h), ('m_windowed', n)) for x in c.allocated(N, a, k)]))
    c.ensures('phase vocoder of the frame length and step', lambda: made(c, N.pobj('m_phaseVoc', PV), n, g.stepSize))
    c.ensures('transform of the frame length', lambda: madefft(c, N.pobj('m_phaseVoc', PV).pobj('m_fft', 'class.FFTReal'), n))
    def win():
        w = N.pobj('m_window', 'class.Window')
        return And(w.m_size == n, *c.allocated(w, 'm_cache', n))
    c.ensures('window of the frame length', win)
    c.ensures('Hann window', lambda: windows.isshape(N.pobj('m_window', 'class.Window'), n, DOUBLE, windows.HANN))
