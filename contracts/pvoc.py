from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.mathutils import *
from contracts.fft import *
from contracts import fft
UNITS = ['dsp/phasevocoder/PhaseVocoder.cpp', 'maths/MathUtilities.cpp'] + fft.UNITS
PV = 'class.PhaseVocoder'; P = 'PhaseVocoder::'
PI = toz(3.14159265358979323846); AT2 = uf('atan2', 2); SQ = uf('sqrt', 1)
def princ(ang): return ang - 2 * PI * z3.ToReal(-z3.ToInt(-(ang + PI) / (2 * PI)) - 1)
def omega(o, i): return 2 * PI * z3.ToReal(o.m_hop) * z3.ToReal(i) / z3.ToReal(o.m_n)
def state(c):
    o = c.this(PV); n = o.m_n; h = n / 2 + 1
    c.requires(And(n >= 2, n <= 2**26, n % 2 == 0), 'even frame length')
    return o, n, h
def arrs(o, n, h): return o.arr('m_time', DOUBLE, n), o.arr('m_real', DOUBLE, n), o.arr('m_imag', DOUBLE, n), o.arr('m_phase', DOUBLE, h), o.arr('m_unwrapped', DOUBLE, h)
def mag(re, im): return lambda i: SQ(re(i) * re(i) + im(i) * im(i))
def unwrap(o, ph, un, th):
    return lambda i: un[i] + omega(o, i) + princ(th(i) - (ph[i] + omega(o, i)))
def outs(c, o, n, h, re, im, m, th, uw):
    ti, rr, ii, ph, un = arrs(o, n, h)
    T = lambda i: AT2(im(i), re(i)); U = unwrap(o, ph, un, T)
    c.assigns(m, mag(re, im), 0, h); c.assigns(th, T, 0, h); c.assigns(uw, U, 0, h)
    c.assigns(ph, T, 0, h); c.assigns(un, U, 0, h)

@contract(P + 'getMagnitudes(double*)', 'C10', optional=True)
def _(c):
    o, n, h = state(c); m = c.arr(); c.valid(m, h); re = o.arr('m_real', DOUBLE, n); im = o.arr('m_imag', DOUBLE, n)
    c.assigns(m, mag(lambda i: re[i], lambda i: im[i]), 0, h)
@contract(P + 'getPhases(double*)', 'C10', optional=True)
def _(c):
    o, n, h = state(c); t = c.arr(); c.valid(t, h); re = o.arr('m_real', DOUBLE, n); im = o.arr('m_imag', DOUBLE, n)
    c.assigns(t, lambda i: AT2(im[i], re[i]), 0, h)
@contract(P + 'unwrapPhases(double*, double*)', 'C10', optional=True)
def _(c):
    o, n, h = state(c); t = c.arr(); u = c.arr(); c.valid(t, h); c.valid(u, h)
    ph = o.arr('m_phase', DOUBLE, h); un = o.arr('m_unwrapped', DOUBLE, h); U = unwrap(o, ph, un, lambda i: t[i])
    c.assigns(u, U, 0, h); c.assigns(ph, lambda i: t[i], 0, h); c.assigns(un, U, 0, h)
@contract(P + 'FFTShift(double*)', 'C10', optional=True)
def _(c):
    o, n, h = state(c); s = c.arr(); c.valid(s, n)
    c.assigns(s, lambda j: If(j < n / 2, s[j + n / 2], s[j - n / 2]), 0, n)
    c.hint_array(s, lambda it, k, e: If(And(k >= 0, k < it), e(k + n / 2), If(And(k >= n / 2, k < n / 2 + it), e(k - n / 2), e(k))))
@contract(P + 'reset()', 'C10')
def _(c):
    o, n, h = state(c); ti, rr, ii, ph, un = arrs(o, n, h)
    for a in (ph, un): c.assigns(a, lambda i: -omega(o, i), 0, h)
@contract(P + 'processFrequencyDomain(double const*, double const*, double*, double*, double*)', 'C10')
def _(c):
    o, n, h = state(c); re = c.arr(); im = c.arr(); m = c.arr(); th = c.arr(); uw = c.arr()
    for a in (re, im, m, th, uw): c.valid(a, h)
    ti, rr, ii, ph, un = arrs(o, n, h)
    c.assigns(rr, lambda i: re[i], 0, h); c.assigns(ii, lambda i: im[i], 0, h)
    outs(c, o, n, h, lambda i: re[i], lambda i: im[i], m, th, uw)
@contract(P + 'processTimeDomain(double const*, double*, double*, double*)', 'C10')
def _(c):
    o, n, h = state(c); x = c.arr(); m = c.arr(); th = c.arr(); uw = c.arr(); c.valid(x, n)
    for a in (m, th, uw): c.valid(a, h)
    ti, rr, ii, ph, un = arrs(o, n, h)
    d = o.pobj('m_fft', 'class.FFTReal').pobj('m_d', 'class.FFTReal::D')
    c.requires(And(d.m_n == n, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'class invariant')
    mc = d.arr('m_c', CPX, n)
    for f in 'ri': c.assigns(mc.f(f), None, 0, n)
    for a in (ti, rr, ii): c.assigns(a, None, 0, n)
    X = lambda j: If(j < n / 2, x[j + n / 2], x[j - n / 2])
    re = lambda i: rdft_re(n, i, X); im = lambda i: rdft_im(n, i, X)
    outs(c, o, n, h, re, im, m, th, uw)
def made(c, o, n, hop):
    h = n / 2 + 1; w = lambda i: 2 * PI * z3.ToReal(hop) * z3.ToReal(i) / z3.ToReal(n)
    ph = o.arr('m_phase', DOUBLE, h); un = o.arr('m_unwrapped', DOUBLE, h)
    return And(o.m_n == n, o.m_hop == hop, forall(0, h, lambda i: And(ph[i] == -w(i), un[i] == -w(i))), *[x for a in ('m_time', 'm_real', 'm_imag') for x in c.allocated(o, a, n)])
@contract(P + 'PhaseVocoder(int, int)', 'C10')
def _(c):
    o = c.this(PV, ctor=True); n = c.int(); hop = c.int()
    c.requires(And(n >= 2, n <= 2**26, n % 2 == 0), 'even frame length')
    c.ensures('state as after reset, memory of the frame length', lambda: made(c, o.new, n, hop))
    c.ensures('transform of the frame length', lambda: madefft(c, o.new.pobj('m_fft', 'class.FFTReal'), n))
@lemma('unwrapped phase is congruent to the measured phase and its deviation from the expected advance is in (-pi, pi]', 'C10')
def _(eng):
    from qmv.core import State
    st = State()
    u, p, w, th = z3.Reals('u p w th'); k = z3.Int('k')
    st.fact(u == p + 2 * PI * z3.ToReal(k))
    dev = th - (p + w); new = u + w + princ(dev)
    q = -z3.ToInt(-(dev + PI) / (2 * PI)) - 1
    eng.oblige(st, new == th + 2 * PI * z3.ToReal(k - q), 'lemma', 'congruent to the new phase')
    eng.oblige(st, And(new - u - w > -PI, new - u - w <= PI), 'lemma', 'deviation')
