from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts import fft, windows
from contracts.fft import fw_re, fw_im, rplan, CPX
UNITS = ['dsp/mfcc/MFCC.cpp', 'dsp/transforms/FFT.cpp', 'ext/kissfft/kiss_fft.c', 'ext/kissfft/tools/kiss_fftr.c', 'base/KaiserWindow.cpp'][:4]
MF = 'class.MFCC'; M = 'MFCC::'
SQRT = uf('sqrt', 1); LG = uf('log10', 1); POW = uf('pow', 2)

def inv(c):
    """representation: fixed-size filter bank over the non-mirrored half of the spectrum, transform rows for coefficients 0..nceps"""
    o = c.this(MF); n = o.fftSize; F = o.totalFilters; N = o.nceps
    c.requires(And(n >= 2, n <= 2**26, F >= 1, F <= 2**20, N >= 0, N <= 2**26, Or(o.WANT_C0 == 0, o.WANT_C0 == 1)), 'class invariant')
    W = c.matrix(o.arr('mfccFilterWeights', PTR, F), F, DOUBLE, n)
    D = c.matrix(o.arr('mfccDCTMatrix', PTR, N + 1), N + 1, DOUBLE, F)
    mag = o.arr('fftMag', DOUBLE, n / 2); ear = o.arr('earMag', DOUBLE, F)
    c.assigns(mag, None, 0, n / 2); c.assigns(ear, None, 0, F)
    return o, n, F, N, W, D
def energy(o, n, W, re, im, i): return Sum(0, n / 2, lambda j: W[i][j] * SQRT(re(j) * re(j) + im(j) * im(j)))
def logen(o, n, W, re, im, i):
    e = energy(o, n, W, re, im, i); l = If(e > 0, LG(e), RealVal(0))
    return If(o.logPower != 1, POW(l, o.logPower), l)
def cep(o, n, F, W, D, re, im, k): return Sum(0, F, lambda j: D[k][j] * logen(o, n, W, re, im, j))

@contract(M + 'process(double const*, double const*, double*)', 'C14', weight=3)
def _(c):
    o, n, F, N, W, D = inv(c)
    re = c.arr(); im = c.arr(); out = c.arr()
    for x in (re, im): c.valid(x, n / 2)
    c0 = o.WANT_C0 == 1
    c.valid(out, If(c0, N + 1, N))
    R_ = lambda j: re[j]; I_ = lambda j: im[j]
    c.assigns(out, lambda k: If(c0, cep(o, n, F, W, D, R_, I_, k), cep(o, n, F, W, D, R_, I_, k + 1)), 0, If(c0, N + 1, N))
    c.result(N)

@contract(M + 'process(double const*, double*)', 'C14', weight=3)
def _(c):
    o, n, F, N, W, D = inv(c)
    x = c.arr(); out = c.arr(); c.valid(x, n)
    w = o.pobj('window', 'class.Window'); c.requires(w.m_size == n, 'window of the frame length'); wc = w.arr('m_cache', DOUBLE, n)
    f = o.pobj('fft', 'class.FFTReal'); d = f.pobj('m_d', 'class.FFTReal::D')
    c.requires(And(d.m_n == n, n % 2 == 0, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'transform of the frame length')
    m = d.arr('m_c', CPX, n)
    for k in 'ri': c.assigns(m.f(k), None, 0, n)
    ro = o.arr('realOut', DOUBLE, n); io = o.arr('imagOut', DOUBLE, n); c.assigns(ro, None, 0, n); c.assigns(io, None, 0, n)
    c0 = o.WANT_C0 == 1
    c.valid(out, If(c0, N + 1, N))
    fr = lambda j: x[j] * wc[j]
    R_ = lambda k: fw_re(n, k, fr); I_ = lambda k: fw_im(n, k, fr)
    c.assigns(out, lambda k: If(c0, cep(o, n, F, W, D, R_, I_, k), cep(o, n, F, W, D, R_, I_, k + 1)), 0, If(c0, N + 1, N))
    c.result(N)

COS = uf('cos', 1)
from contracts.windows import dbl
import math
def freq(i):
    """filter edges: 13 linear steps, then a constant ratio"""
    lin = lambda k: dbl(66.6666666) + z3.ToReal(k) * dbl(66.66666666)
    return If(i < 13, lin(toz(i)), lin(IntVal(12)) * POW(dbl(1.0711703), z3.ToReal(i - 12)))
def weight(i, j, n, fs):
    f = z3.ToReal(j) / z3.ToReal(n) * z3.ToReal(fs); lo, ce, up = freq(i), freq(i + 1), freq(i + 2); h = 2 / (up - lo)
    return If(And(f > lo, f <= ce), h * (f - lo) / (ce - lo), RealVal(0)) + If(And(f > ce, f < up), h * (up - f) / (up - ce), RealVal(0))
def dctrow(i, j, F):
    v = 1 / SQRT(z3.ToReal(F) / 2) * COS(z3.ToReal(i) * (z3.ToReal(j) + RealVal('1/2')) / z3.ToReal(F) * dbl(math.pi))
    return If(i == 0, SQRT(RealVal(2)) / 2 * v, v)
@contract(M + 'MFCC(MFCCConfig)', 'C14', weight=4)
def _(c):
    o = c.this(MF, ctor=True); g = c.obj('struct.MFCCConfig'); n = g.fftsize; N = g.nceps; F = IntVal(40)
    c.requires(And(n >= 2, n <= 2**26, n % 2 == 0, N >= 0, N <= 2**26, g.window >= 0, g.window <= 5, Or(g.want_c0 == 0, g.want_c0 == 1)), 'configuration')
    i = z3.Int('i'); j = z3.Int('j')
    c.ensures('parameters', lambda: And(o.new.fftSize == n, o.new.totalFilters == 40, o.new.logPower == g.logpower, o.new.nceps == N, o.new.WANT_C0 == g.want_c0))
    W = lambda: c.matrix(o.new.arr('mfccFilterWeights', PTR, F), F, DOUBLE, n)
    D = lambda: c.matrix(o.new.arr('mfccDCTMatrix', PTR, N + 1), N + 1, DOUBLE, F)
    c.ensures('filters', lambda: forall(0, 40, lambda i: forall(0, n, lambda j: W()[i][j] == weight(i, j, n, g.FS))))
    c.ensures('transform', lambda: forall(0, N + 1, lambda i: forall(0, 40, lambda j: D()[i][j] == dctrow(i, j, F))))
    c.ensures('scratch', lambda: And(*(c.allocated(o.new, 'fftMag', n / 2) + c.allocated(o.new, 'earMag', F))))
    c.ensures('transform of the frame length', lambda: fft.madefft(c, o.new.pobj('fft', 'class.FFTReal'), n))
    def win():
        w = o.new.pobj('window', 'class.Window'); return And(w.m_size == n, *c.allocated(w, 'm_cache', n))
    c.ensures('window of the frame length', win)
    c.ensures('window of the configured shape', lambda: windows.isshape(o.new.pobj('window', 'class.Window'), n, DOUBLE, g.window))
    c.ensures('transform work memory', lambda: And(*(c.allocated(o.new, 'realOut', n) + c.allocated(o.new, 'imagOut', n))))
