from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.mathutils import *
from contracts.filters import FF, F as FILTER, filtfilt_spec, inv as filter_inv
from qmv.lib import ordstat
UNITS = ['dsp/signalconditioning/DFProcess.cpp', 'dsp/signalconditioning/FiltFilt.cpp', 'dsp/signalconditioning/Filter.cpp', 'maths/MathUtilities.cpp']
D = 'class.DFProcess'
CAP = 2**26
def imin(a, b): return If(a <= b, a, b)
def imax(a, b): return If(a >= b, a, b)
def med(src, lo, m):
    A = arrof(lambda j: If(And(j >= 0, j < m), src(lo + j), 0))
    return If(m == 0, RealVal(0), If(m % 2 == 0, (ordstat(m, A, m / 2) + ordstat(m, A, m / 2 - 1)) / 2, ordstat(m, A, m / 2)))
def win(o, src, k):
    """median over the window [k - pre, k + post] clipped to the data"""
    lo = imax(0, k - o.m_winPre)
    return med(src, lo, imin(o.m_length, k + o.m_winPost + 1) - lo)
def thresholded(o, src, k):
    v = src(k) - win(o, src, k) - o.m_delta
    return If(And(o.m_isMedianPositive % 2 == 1, v <= 0), RealVal(0), v)
def wins(o): return And(o.m_length >= 0, o.m_length <= CAP, o.m_winPre >= 0, o.m_winPre <= CAP, o.m_winPost >= 0, o.m_winPost <= CAP)
@contract('DFProcess::medianFilter(double*, double*)', 'C15', optional=True, weight=2)
def _(c):
    o = c.this(D); src = c.arr(); dst = c.arr(); n = o.m_length
    c.requires(wins(o)); c.valid(src, n); c.valid(dst, n); s = lambda k: src[k]
    c.assigns(dst, lambda k: thresholded(o, s, k), 0, n)
    c.local_cut('scratch', lambda loc: (n, lambda k: win(o, s, k)))

def normalised(c, o, src):
    n = o.m_length; al = o.m_alphaNormParam
    mn = c.let('min', R, lambda v: And(forall(0, n, lambda i: v <= src[i]), z3.Exists([z3.Int('w')], And(z3.Int('w') >= 0, z3.Int('w') < n, v == src[z3.Int('w')]))), 'a non-empty sequence has a minimum')
    P = uf('pow', 2); a = z3.ToReal(z3.ToInt(al))
    norm = P(Sum(0, n, lambda i: P(rabs(src[i]), a)) / z3.ToReal(n), 1 / a)
    return lambda k: (src[k] - mn) / norm
@contract('DFProcess::removeDCNormalize(double*, double*)', 'C15', optional=True)
def _(c):
    o = c.this(D); src = c.arr(); dst = c.arr(); n = o.m_length; al = o.m_alphaNormParam
    c.requires(And(n >= 1, n <= CAP, al >= 1, al <= 2**30)); c.valid(src, n); c.valid(dst, n)
    c.assigns(dst, normalised(c, o, src), 0, n)

def conditioning(c, o, src):
    n = o.m_length; al = o.m_alphaNormParam
    ff = o.pobj('m_FiltFilt', FF); f = ff.obj('m_filter', FILTER)
    a = o.arr('filtSrc', DOUBLE, n); b = o.arr('filtDst', DOUBLE, n)
    c.requires(And(wins(o), n >= 1, al >= 1, al <= 2**30, filter_inv(c, f), ff.m_ord == f.m_order, ff.m_ord <= 2**26))
    s1 = normalised(c, o, src)
    A1 = arrof(lambda k: If(And(k >= 0, k < n), s1(k), 0))
    s2 = filtfilt_spec(ff, f, lambda k: z3.Select(A1, k), n)
    c.assigns(a, None, 0, n); c.assigns(b, None, 0, n)
    ba, bb = f.vec('m_bufa', DOUBLE), f.vec('m_bufb', DOUBLE)
    c.free_fields(f, ['m_offa', 'm_offb']); c.assigns(ba, None, 0, ba.size); c.assigns(bb, None, 0, bb.size)
    return f, lambda k: thresholded(o, s2, k)
@contract('DFProcess::process(double*, double*)', 'C15')
def _(c):
    o = c.this(D); src = c.arr(); dst = c.arr(); n = o.m_length
    f, out = conditioning(c, o, src)
    c.valid(src, n); c.valid(dst, n)
    c.assigns(dst, out, 0, n)
    c.ensures('class invariant kept', lambda: filter_inv(c, o.new.pobj('m_FiltFilt', FF).obj('m_filter', FILTER)))
UNITS += ['dsp/onsets/PeakPicking.cpp']
FIT = uf('PARABOLA_FIT', 6)
@contract('TPolyFit::PolyFit2(std::vector<double, std::allocator<double> > const&, std::vector<double, std::allocator<double> > const&, std::vector<double, std::allocator<double> >&)', trusted='three coefficients determined by the five ordinates; least-squares values are the subject of C23 (bounded)')
def _(c):
    x = c.vec(); y = c.vec(); co = c.vec()
    c.requires(And(co.size == 3, x.size == 5, y.size == 5, *[x[i] == i - 2 for i in range(5)]), 'five points at -2..2')
    ys = [y[i] for i in range(5)]
    c.assigns(co, lambda k: FIT(z3.ToReal(k), *ys), 0, 3)
    c.result(uf('POLYFIT_ERR', 5)(*ys))
P = 'class.PeakPicking'
def peak(s, i): return And(i >= 2, s[i] > s[i - 1], s[i] > s[i + 1], s[i] > 0)
def accepted(o, s, i):
    ys = [s[i + d] for d in range(-2, 3)]
    return Or(FIT(RealVal(2), *ys) < -o.Qfilta, FIT(RealVal(0), *ys) > o.Qfiltc)
@contract('PeakPicking::quadEval(std::vector<double, std::allocator<double> >&, std::vector<int, std::allocator<int> >&)', 'C15', optional=True)
def _(c):
    o = c.this(P); s = c.vec(); idx = c.vec(I32); n = s.size; z = idx.size
    c.requires(And(n <= CAP, z >= 0, z <= CAP))
    c.free(idx); c.result(IntVal(1))
    good = lambda i: And(i >= 2, i < n - 2, peak(s, i), accepted(o, s, i))
    c.ensures('earlier contents kept', lambda: And(idx.new.size >= z, forall(0, z, lambda k: idx.new[k] == idx[k])))
    c.ensures('accepted interior peaks only', lambda: forall(z, idx.new.size, lambda k: good(idx.new[k])))
    c.ensures('strictly increasing', lambda: forall(z + 1, idx.new.size, lambda k: idx.new[k - 1] < idx.new[k]))
    def inv1(loc, it):
        if 'm_maxIndex' not in loc.mods: return None
        m = loc.vec('m_maxIndex', I32)
        return And(forall(0, m.size, lambda k: And(peak(s, m[k]), m[k] < it + 2)), forall(1, m.size, lambda k: m[k - 1] < m[k]), m.size >= 0, m.size <= it)
    c.local_inv('interior maxima so far', inv1)
    def inv2(loc, it):
        if not loc.writes('idx'): return None
        m = loc.vec('m_maxIndex', I32); x = loc.vec('idx', I32)
        return And(x.size >= z, x.size <= z + it, forall(0, z, lambda k: x[k] == idx[k]), forall(z, x.size, lambda k: And(good(x[k]))), forall(z + 1, x.size, lambda k: x[k - 1] < x[k]), Implies(And(it < m.size, x.size > z), x[x.size - 1] < m[it]))
    c.local_inv('onsets so far', inv2)

@contract('PeakPicking::process(double*, int, std::vector<int, std::allocator<int> >&)', 'C15')
def _(c):
    o = c.this(P); src = c.arr(); n = c.int(); idx = c.vec(I32); z = idx.size
    df = o.pobj('m_DFSmoothing', D); w = o.arr('m_workBuffer', DOUBLE, n)
    c.requires(And(n >= 4, df.m_length == n, z >= 0, z <= CAP)); c.valid(src, n)
    f, out = conditioning(c, df, src)
    c.assigns(src, out, 0, n); c.assigns(w, None, 0, n); c.free(idx)
    s = src.new
    good = lambda i: And(i >= 2, i < n - 2, peak(s, i), accepted(o, s, i))
    c.ensures('earlier contents kept', lambda: And(idx.new.size >= z, forall(0, z, lambda k: idx.new[k] == idx[k])))
    c.ensures('accepted interior peaks of the conditioned function only', lambda: forall(z, idx.new.size, lambda k: good(idx.new[k])))
    c.ensures('strictly increasing', lambda: forall(z + 1, idx.new.size, lambda k: idx.new[k - 1] < idx.new[k]))
