from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = ['dsp/transforms/FFT.cpp', 'ext/kissfft/kiss_fft.c', 'ext/kissfft/tools/kiss_fftr.c']
CAP = 2**26
KST = 'struct.kiss_fft_state'; KRST = 'struct.kiss_fftr_state'; CPX = 'struct.kiss_fft_cpx'
# cos(2 pi j k / n) and sin(2 pi j k / n)
CS = z3.Function('COS2PI', I, I, I, R); SN = z3.Function('SIN2PI', I, I, I, R)
def dft_re(n, k, xr, xi, s):
    """real part of sum_j (xr + i xi)[j] exp(-s 2 pi i j k / n), s = 1 forward, -1 inverse"""
    return Sum(0, n, lambda j: xr(j) * CS(j, k, n) + s * xi(j) * SN(j, k, n))
def dft_im(n, k, xr, xi, s):
    return Sum(0, n, lambda j: xi(j) * CS(j, k, n) - s * xr(j) * SN(j, k, n))
def rdft_re(n, k, x): return Sum(0, n, lambda j: x(j) * CS(j, k, n))
def rdft_im(n, k, x): return Sum(0, n, lambda j: -x(j) * SN(j, k, n))
def irdft(n, k, re, im):
    """unscaled inverse of a conjugate-symmetric spectrum given by its bins 0..n/2 (imaginary parts of bins 0 and n/2 ignored)"""
    return re(0) + Sum(0, n / 2 - 1, lambda j: 2 * (re(j + 1) * CS(j + 1, k, n) - im(j + 1) * SN(j + 1, k, n))) + re(n / 2) * CS(n / 2, k, n)
WHY = 'values of the mixed-radix kissfft recursion: executed against the defining sum for every length up to a bound (C01), not proved'
@contract('kiss_fft', trusted=WHY)
def _(c):
    st = c.obj(KST); fin = c.arr(CPX); fout = c.arr(CPX); n = st.nfft
    c.requires(And(n >= 1, n <= CAP, Or(st.inverse == 0, st.inverse == 1))); c.valid(fin, n); c.valid(fout, n)
    s = If(st.inverse == 0, RealVal(1), RealVal(-1)); xr = lambda j: fin.f('r')[j]; xi = lambda j: fin.f('i')[j]
    c.assigns(fout.f('r'), lambda k: dft_re(n, k, xr, xi, s), 0, n)
    c.assigns(fout.f('i'), lambda k: dft_im(n, k, xr, xi, s), 0, n)
@contract('kiss_fftr', trusted=WHY)
def _(c):
    st = c.obj(KRST); x = c.arr(); out = c.arr(CPX); sub = st.pobj('substate', KST); h = sub.nfft; n = 2 * h
    c.requires(And(h >= 1, h <= CAP, sub.inverse == 0)); c.valid(x, n); c.valid(out, h + 1)
    c.assigns(out.f('r'), lambda k: rdft_re(n, k, lambda j: x[j]), 0, h + 1)
    c.assigns(out.f('i'), lambda k: rdft_im(n, k, lambda j: x[j]), 0, h + 1)
@contract('kiss_fftri', trusted=WHY)
def _(c):
    st = c.obj(KRST); x = c.arr(CPX); out = c.arr(); sub = st.pobj('substate', KST); h = sub.nfft; n = 2 * h
    c.requires(And(h >= 1, h <= CAP, sub.inverse == 1)); c.valid(x, h + 1); c.valid(out, n)
    c.assigns(out, lambda k: irdft(n, k, lambda j: x.f('r')[j], lambda j: x.f('i')[j]), 0, n)

def cplan(d, name, inv):
    p = d.pobj(name, KST); return And(p.nfft == d.m_n, p.inverse == inv)
@contract('FFT::process(bool, double const*, double const*, double*, double*)', 'C01')
def _(c):
    o = c.this('class.FFT'); inv = c.bool(); ri = c.arr(); ii = c.arr(null=True); ro = c.arr(); io = c.arr()
    d = o.pobj('m_d', 'class.FFT::D'); n = d.m_n
    c.requires(And(n >= 1, n <= CAP, cplan(d, 'm_planf', 0), cplan(d, 'm_plani', 1)), 'class invariant')
    for a in (ri, ro, io): c.valid(a, n)
    nul = c.isnull(ii); c.valid(ii, If(nul, 0, n))
    kin = d.arr('m_kin', CPX, n); kout = d.arr('m_kout', CPX, n)
    for a in (kin, kout):
        for f in 'ri': c.assigns(a.f(f), None, 0, n)
    xr = lambda j: ri[j]; xi = lambda j: If(nul, 0, ii[j])
    s = If(inv, RealVal(-1), RealVal(1)); sc = If(inv, 1 / z3.ToReal(n), 1)
    c.assigns(ro, lambda k: sc * dft_re(n, k, xr, xi, s), 0, n)
    c.assigns(io, lambda k: sc * dft_im(n, k, xr, xi, s), 0, n)
def rplan(d, name, inv):
    p = d.pobj(name, KRST).pobj('substate', KST); return And(2 * p.nfft == d.m_n, p.inverse == inv)
def realfft(c):
    o = c.this('class.FFTReal'); d = o.pobj('m_d', 'class.FFTReal::D'); n = d.m_n
    c.requires(And(n >= 2, n <= CAP, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'class invariant')
    m = d.arr('m_c', CPX, n)
    for f in 'ri': c.assigns(m.f(f), None, 0, n)
    return n
def fw_re(n, k, x): return If(k <= n / 2, rdft_re(n, k, x), rdft_re(n, n - k, x))
def fw_im(n, k, x): return If(k <= n / 2, rdft_im(n, k, x), -rdft_im(n, n - k, x))
@contract('FFTReal::forward(double const*, double*, double*)', 'C01')
def _(c):
    n = realfft(c); x = c.arr(); ro = c.arr(); io = c.arr()
    for a in (x, ro, io): c.valid(a, n)
    X = lambda j: x[j]
    c.assigns(ro, lambda k: fw_re(n, k, X), 0, n); c.assigns(io, lambda k: fw_im(n, k, X), 0, n)
@contract('FFTReal::forwardMagnitude(double const*, double*)', 'C01')
def _(c):
    n = realfft(c); x = c.arr(); mo = c.arr()
    for a in (x, mo): c.valid(a, n)
    X = lambda j: x[j]; sq = uf('sqrt', 1)
    c.assigns(mo, lambda k: sq(fw_re(n, k, X) * fw_re(n, k, X) + fw_im(n, k, X) * fw_im(n, k, X)), 0, n)
@contract('FFTReal::inverse(double const*, double const*, double*)', 'C01')
def _(c):
    n = realfft(c); ri = c.arr(); ii = c.arr(); ro = c.arr()
    for a in (ri, ii): c.valid(a, n / 2 + 1)
    c.valid(ro, n)
    c.assigns(ro, lambda k: irdft(n, k, lambda j: ri[j], lambda j: ii[j]) * (1 / z3.ToReal(n)), 0, n)

# construction: the plan constructors of kissfft return plans of the requested length and direction; the wrappers hold them and memory of the length
WHYP = 'plans of kissfft (twiddle tables, factorisation, single-block memory layout): executed for every length up to a bound (C01), not proved'
@contract('kiss_fft_alloc', trusted=WHYP)
def _(c):
    n = c.int(); inv = c.int(); mem = c.opaque(); lenmem = c.opaque()
    c.requires(And(n >= 1, n <= CAP)); c.result_new(KST)
    c.ensures('plan', lambda: And(c.retobj().nfft == n, c.retobj().inverse == If(inv == 0, IntVal(0), IntVal(1))))
@contract('kiss_fftr_alloc', trusted=WHYP)
def _(c):
    n = c.int(); inv = c.int(); mem = c.opaque(); lenmem = c.opaque()
    c.requires(And(n >= 2, n <= CAP, n % 2 == 0)); c.result_new(KRST)
    def post():
        s = c.retobj().pobj('substate', KST); return And(2 * s.nfft == n, s.inverse == If(inv == 0, IntVal(0), IntVal(1)))
    c.ensures('plan', post)
@contract('FFT::FFT(int)', 'C01')
def _(c):
    o = c.this('class.FFT', ctor=True); n = c.int(); c.requires(And(n >= 1, n <= CAP), 'length')
    def post():
        d = o.new.pobj('m_d', 'class.FFT::D')
        return And(d.m_n == n, cplan(d, 'm_planf', 0), cplan(d, 'm_plani', 1))
    c.ensures('plans of both directions', post)
    c.ensures('memory', lambda: And(*(c.allocated(o.new.pobj('m_d', 'class.FFT::D'), 'm_kin', n, CPX) + c.allocated(o.new.pobj('m_d', 'class.FFT::D'), 'm_kout', n, CPX))))
def madefft(c, o, n):
    d = o.pobj('m_d', 'class.FFTReal::D')
    return And(d.m_n == n, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1), *c.allocated(d, 'm_c', n, CPX))
@contract('FFTReal::FFTReal(int)', 'C01')
def _(c):
    o = c.this('class.FFTReal', ctor=True); n = c.int(); c.requires(And(n >= 2, n <= CAP), 'length')
    c.throws(n % 2 != 0)
    c.ensures('plans of both directions and memory of the length', lambda: madefft(c, o.new, n))
