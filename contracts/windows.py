import os
from qmv.dsl import *
from qmv.registry import contract, lemma
import contracts.mathutils
H = os.path.dirname(os.path.abspath(__file__))
UNITS = [H + '/tu/window.cpp', 'base/KaiserWindow.cpp', 'base/SincWindow.cpp', 'maths/MathUtilities.cpp']
from fractions import Fraction
import math
W = {DOUBLE: 'class.Window', FLOAT: 'class.Window'}
def dbl(x): return RealVal(str(Fraction(x)))
COS = uf('cos', 1); SIN = uf('sin', 1)
RECT, BARTLETT, HAMMING, HANN, BLACKMAN, BH = range(6)

import struct
TT = {DOUBLE: dbl(2. / 3.), FLOAT: dbl(struct.unpack('f', struct.pack('f', 2. / 3.))[0])}   # two thirds, in the element type
def shape(ty, i, n, el):
    """documented formula of every shape; cosine shapes are periodic with period n"""
    ri, rn = z3.ToReal(toz(i)), z3.ToReal(toz(n))
    c = lambda k: COS(dbl(k * math.pi) * ri / rn)
    h = n / 2
    bart = If(n == 2, 0, If(n == 3, If(i == 0, 0, TT[el]), If(n > 3, If(i < h, ri / z3.ToReal(h), If(i >= n - h, 1 - z3.ToReal(i - (n - h)) / z3.ToReal(h), 1)), 1)))
    one = RealVal(1)
    cosw = lambda f: If(n > 1, f(), one)
    return If(ty == RECT, RealVal('1/2'), If(ty == BARTLETT, bart,
           If(ty == HAMMING, cosw(lambda: dbl(.54) - dbl(.46) * c(2)), If(ty == HANN, cosw(lambda: RealVal('1/2') - RealVal('1/2') * c(2)),
           If(ty == BLACKMAN, cosw(lambda: dbl(.42) - RealVal('1/2') * c(2) + dbl(.08) * c(4)),
           If(ty == BH, cosw(lambda: dbl(.35875) - dbl(.48829) * c(2) + dbl(.14128) * c(4) - dbl(.01168) * c(6)), one))))))

def isshape(q, n, el, ty): return forall(0, n, lambda i: q.arr('m_cache', el, n)[i] == shape(ty, i, n, el))

for _T, _el in (('double', DOUBLE), ('float', FLOAT)):
    def _enc(c, el=_el):
        o = c.this(W[el]); n = o.m_size; ty = o.m_type
        c.requires(And(n >= 0, n <= 2**28, ty >= 0, ty <= 5))
        c.free_fields(o, ['m_cache'])
        c.ensures('memory', lambda: And(*c.allocated(o.new, 'm_cache', n, el)))
        c.ensures('shape', lambda: isshape(o.new, n, el, ty))
    contract('Window<%s>::encache()' % _T, 'C03', optional=True, weight=2)(_enc)
    def _ctor(c, el=_el):
        o = c.this(W[el], ctor=True); ty = c.int(); n = c.int()
        c.requires(And(n >= 0, n <= 2**28, ty >= 0, ty <= 5))
        c.ensures('type and size', lambda: And(o.new.m_size == n, o.new.m_type == ty))
        c.ensures('memory', lambda: And(*c.allocated(o.new, 'm_cache', n, el)))
        c.ensures('shape', lambda: isshape(o.new, n, el, ty))
    contract('Window<%s>::Window(WindowType, int)' % _T, 'C03')(_ctor)
    def _copy(c, el=_el):
        o = c.this(W[el], ctor=True); w = c.obj(W[el]); n = w.m_size; ty = w.m_type
        c.requires(And(n >= 0, n <= 2**28, ty >= 0, ty <= 5))
        c.ensures('type and size', lambda: And(o.new.m_size == n, o.new.m_type == ty))
        c.ensures('memory', lambda: And(*c.allocated(o.new, 'm_cache', n, el)))
        c.ensures('shape', lambda: isshape(o.new, n, el, ty))
    contract('Window<%s>::Window(Window<%s> const&)' % (_T, _T), 'C03')(_copy)
    def _cut(c, el=_el):
        o = c.this(W[el]); n = o.m_size; src = c.arr(el); dst = c.arr(el)
        c.requires(n >= 0); c.valid(src, n); c.valid(dst, n); w = o.arr('m_cache', el, n)
        c.assigns(dst, lambda k: src[k] * w[k], 0, n)
    contract('Window<%s>::cut(%s const*, %s*) const' % (_T, _T, _T), 'C03')(_cut)
    def _cut1(c, el=_el):
        o = c.this(W[el]); n = o.m_size; src = c.arr(el)
        c.requires(n >= 0); c.valid(src, n); w = o.arr('m_cache', el, n)
        c.assigns(src, lambda k: src[k] * w[k], 0, n)
    contract('Window<%s>::cut(%s*) const' % (_T, _T), 'C03')(_cut1)
    def _data(c, el=_el):
        r = c.outvec(el); o = c.this(W[el]); n = o.m_size
        c.requires(n >= 0); w = o.arr('m_cache', el, n)
        c.setsize(r, n); c.assigns(r, lambda k: w[k], 0, n)
    contract('Window<%s>::getWindowData() const' % _T, 'C03')(_data)
    def _asg(c, el=_el):
        o = c.this(W[el]); w = c.obj(W[el]); n = w.m_size; ty = w.m_type
        c.requires(And(n >= 0, n <= 2**28, ty >= 0, ty <= 5, o.m_size >= 0)); o.arr('m_cache', el, o.m_size)
        c.free_fields(o, ['m_size', 'm_type', 'm_cache'])
        c.ensures('type and size', lambda: And(o.new.m_size == n, o.new.m_type == ty))
        c.ensures('memory', lambda: And(*c.allocated(o.new, 'm_cache', n, el)))
        c.ensures('shape', lambda: isshape(o.new, n, el, ty))
    contract('Window<%s>::operator=(Window<%s> const&)' % (_T, _T), 'C03')(_asg)

# ---- Kaiser
KW = 'class.KaiserWindow'; SW = 'class.SincWindow'; SQRT = uf('sqrt', 1); POW = uf('pow', 2)
from contracts.mathutils import fact
def term(x, i): return If(i == 0, RealVal(1), POW(x / 2, z3.ToReal(toz(i) * 2)) / (fact(i) * fact(i)))
def bess(x): return Sum(0, 20, lambda i: term(x, i))

@contract('besselTerm(double, int)', 'C03', optional=True)
def _(c):
    x = c.real(); i = c.int(); c.requires(And(i >= 0, i <= 1000)); c.result(term(x, i))
@contract('bessel0(double)', 'C03', optional=True)
def _(c):
    x = c.real(); c.result(bess(x))
def kval(beta, n, j):
    k = z3.ToReal(2 * j) / z3.ToReal(n - 1) - 1
    return bess(beta * SQRT(1 - k * k)) / bess(beta)
def kaiser(c, o, n, beta):
    w = o.vec('m_window', DOUBLE); h = (n + 1) / 2
    return [('length', w.size == n), ('values', forall(0, n, lambda i: w[i] == kval(beta, n, If(i < h, i, n - 1 - i))))]
@contract('KaiserWindow::init()', 'C03')
def _(c):
    o = c.this(KW); n = o.m_length; beta = o.m_beta; w = o.vec('m_window', DOUBLE)
    c.requires(And(n >= 2, n <= 2**28, w.size == 0, bess(beta) > 0)); h = (n + 1) / 2
    c.setsize(w, n); c.assigns(w, lambda i: kval(beta, n, If(i < h, i, n - 1 - i)), 0, n)
@contract('KaiserWindow::cut(double const*, double*) const', 'C03')
def _(c):
    o = c.this(KW); src = c.arr(); dst = c.arr(); n = o.m_length; w = o.vec('m_window', DOUBLE)
    c.requires(And(n >= 0, w.size == n)); c.valid(src, n); c.valid(dst, n)
    c.assigns(dst, lambda k: src[k] * w[k], 0, n)
# ---- sinc
def sval(n, p, i):
    x = z3.ToReal(If(i < n / 2, n / 2 - i, i - n / 2)) * (dbl(2 * math.pi) / p)
    return If(i == n / 2, RealVal(1), SIN(x) / x)
@contract('SincWindow::init()', 'C03')
def _(c):
    o = c.this(SW); n = o.m_length; p = o.m_p; w = o.vec('m_window', DOUBLE)
    c.requires(And(n >= 0, n <= 2**28, w.size == 0, p > 0))
    c.setsize(w, n); c.assigns(w, lambda i: sval(n, p, i), 0, n)
@contract('SincWindow::cut(double const*, double*) const', 'C03')
def _(c):
    o = c.this(SW); src = c.arr(); dst = c.arr(); n = o.m_length; w = o.vec('m_window', DOUBLE)
    c.requires(And(n >= 0, w.size == n)); c.valid(src, n); c.valid(dst, n)
    c.assigns(dst, lambda k: src[k] * w[k], 0, n)

def ceilR(x): return -z3.ToInt(-x)
def klen(a, t): return 1 + If(a > 21, ceilR((a - dbl(7.95)) / (dbl(2.285) * t)), ceilR(dbl(5.79) / t))
def kbeta(a): return If(a > 50, dbl(.1102) * (a - dbl(8.7)), If(a > 21, dbl(.5842) * POW(a - 21, dbl(.4)) + dbl(.07886) * (a - 21), RealVal(0)))
def kpre(a, t): return And(t > 0, a >= 0, klen(a, t) <= 2**30)
for _nm, _bw in (('kaiserLength(double, double)', False), ('kaiserBeta(double, double)', False), ('kaiserLengthBandwidth(double, double, double)', True), ('kaiserBetaBandwidth(double, double, double)', True)):
    def _k(c, nm=_nm, bw=_bw):
        a = c.real(); t = c.real()
        if bw:
            r = c.real(); c.requires(r > 0); t = t * 2 * dbl(math.pi) / r
        c.requires(kpre(a, t)); c.result(klen(a, t) if 'Length' in nm else kbeta(a))
    contract(_nm, 'C03')(_k)

@contract('KaiserWindow::KaiserWindow(KaiserWindow::Parameters)', 'C03')
def _(c):
    o = c.this(KW, ctor=True); n = c.int(); beta = c.real()
    c.requires(And(n >= 2, n <= 2**28, bess(beta) > 0)); h = (n + 1) / 2
    c.ensures('parameters', lambda: And(o.new.m_length == n, o.new.m_beta == beta))
    c.ensures('window', lambda: And(*[e for _, e in kaiser(c, o.new, n, beta)]))
@contract('SincWindow::SincWindow(int, double)', 'C03')
def _(c):
    o = c.this(SW, ctor=True); n = c.int(); p = c.real()
    c.requires(And(n >= 0, n <= 2**28, p > 0))
    c.ensures('length', lambda: And(o.new.m_length == n, o.new.vec('m_window', DOUBLE).size == n))
    c.ensures('values', lambda: forall(0, n, lambda i: o.new.vec('m_window', DOUBLE)[i] == sval(n, p, i)))
