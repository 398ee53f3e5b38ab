from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from qmv.lib import ORDI
from contracts import mathutils, decimators, cq
from contracts.decimators import D as DEC, F7, dargs, O as DO
UNITS = ['dsp/keydetection/GetKeyMode.cpp', 'dsp/rateconversion/Decimator.cpp'] + [u for u in cq.UNITS]
GK = 'class.GetKeyMode'; B = 36
SQ = uf('sqrt', 1)
def corr(d, p, s, n):
    """normalised correlation of the data with the profile rotated by s (0 when either is zero)"""
    P = lambda i: p((i - s + n) % n)
    num = Sum(0, n, lambda i: d(i) * P(i)); den = SQ(Sum(0, n, lambda i: d(i) * d(i)) * Sum(0, n, lambda i: P(i) * P(i)))
    return If(den > 0, num / den, RealVal(0))
@contract('GetKeyMode::krumCorr(double const*, double const*, int, int)', 'C13', optional=True)
def _(c):
    o = c.this(GK); d, p = c.arr(), c.arr(); s, n = c.int(), c.int()
    c.requires(And(n >= 1, n <= 2**20, s <= n, s >= -2**20)); c.valid(d, n); c.valid(p, n)
    c.result(corr(lambda i: d[i], lambda i: p[i], s, n))
@contract('GetKeyMode::getKeyStrengths()', 'C13')
def _(c):
    o = c.this(GK); a, b, k = o.arr('m_majCorr', DOUBLE, B), o.arr('m_minCorr', DOUBLE, B), o.arr('m_keyStrengths', DOUBLE, 24)
    mx = lambda x, y: If(y > x, y, x)
    best = lambda a, i: mx(mx(a[3 * i], a[3 * i + 1]), a[3 * i + 2])
    c.unroll(36)
    c.assigns(k, lambda i: If(i < 12, best(a, i), best(b, i - 12)), 0, 24)
    c.result_ptr(k)

def keystate(c, o):
    C = o.m_chromaBufferSize; W = o.m_medianWinSize; i = o.m_bufferIndex; f = o.m_chromaBufferFilling; g = o.m_medianBufferFilling
    c.requires(And(C >= 1, C <= 2**20, W >= 1, W <= 2**20, i >= 0, i < C, f >= 0, f <= C, g >= 0, g <= W, Or(f == C, f == i)), 'class invariant: history positions')
    return C, W, i, f, g
@contract('GetKeyMode::process(double*)', 'C13', weight=4)
def _(c):
    o = c.this(GK); x = c.arr()
    C, W, bi, f, g = keystate(c, o)
    d = o.pobj('m_decimator', DEC); n = d.m_inputLength; fac = d.m_decFactor; m = d.m_outputLength
    c.requires(And(n >= 0, fac >= 1, m == n / fac, n <= 2**30), 'decimator as constructed'); c.valid(x, n)
    c.assigns(d.arr('decBuffer', DOUBLE, n), None, 0, n); c.free_fields(d, ['Input', 'Output'] + list(DO))
    h = o.pobj('m_chroma', cq.CH); N = cq.chroma(c, h, False)[0]; cq.transform(c, h, N)
    w = h.pobj('m_window', 'class.Window'); c.requires(w.m_size == N, 'window of the frame length'); w.arr('m_cache', DOUBLE, N); c.assigns(h.arr('m_windowbuf', DOUBLE, N), None, 0, N)
    c.requires(And(h.m_BPO == B, m == N, o.m_chromaFrameSize == N), 'class invariant: 36 bins per octave, decimated frame')
    buf = o.arr('m_decimatedBuffer', DOUBLE, N); c.assigns(buf, None, 0, N)
    ch = o.arr('m_chromaBuffer', DOUBLE, B * C); mean = o.arr('m_meanHPCP', DOUBLE, B); ma, mi = o.arr('m_majCorr', DOUBLE, B), o.arr('m_minCorr', DOUBLE, B)
    pa, pi = o.arr('m_majProfileNorm', DOUBLE, B), o.arr('m_minProfileNorm', DOUBLE, B); med = o.arr('m_medianFilterBuffer', I32, W); so = o.arr('m_sortedBuffer', I32, W)
    c.requires(forall(W - g, W, lambda k: And(med[k] >= 1, med[k] <= 24)), 'class invariant: recorded keys')
    c.requires(forall(0, W, lambda k: And(med[k] >= 0, med[k] <= 24)), 'class invariant: keys')
    c.free_fields(o, ['m_chrPointer'])
    for v, k in ((ch, B * C), (mean, B), (ma, B), (mi, B), (med, W), (so, W)): c.assigns(v, None, 0, k)
    out = h.arr('m_chromadata', DOUBLE, B)
    c.ignore('Chromagram::process', 'Decimator::process')
    for v, nm in ((ma, 'majcorr'), (mi, 'mincorr')): c.nameit('<MathUtilities::getMax', v, B, nm)
    f1 = If(f >= C, C, f + 1); g1 = If(g >= W, W, g + 1)
    c.sets(o, 'm_bufferIndex', If(bi + 1 >= C, 0, bi + 1)); c.sets(o, 'm_chromaBufferFilling', f1); c.sets(o, 'm_medianBufferFilling', g1)
    c.ensures('chroma stored in the current row, others kept', lambda: forall(0, B * C, lambda k: ch.new[k] == If(And(k >= bi * B, k < bi * B + B), out.new[k - bi * B], ch[k])))
    avg = lambda k: Sum(0, f1, lambda j: ch.new[k + j * B]) / z3.ToReal(f1)
    c.ensures('average chroma, zero mean', lambda: forall(0, B, lambda k: mean.new[k] == avg(k) - Sum(0, B, avg) / B))
    key = lambda: med.new[W - 1]
    def chosen():
        C_ = lambda i: If(i < B, ma.new[i], mi.new[i - B]); b = 3 * key() - 3
        mx = lambda x, y: If(y > x, y, x); top = mx(mx(C_(b), C_(b + 1)), C_(b + 2))
        return And(forall(0, B, lambda k: ma.new[k] <= top), forall(0, B, lambda k: mi.new[k] <= top))
    c.ensures('key in range', lambda: And(key() >= 1, key() <= 24))
    c.ensures('best correlating key', chosen)
    c.ensures('key history shifted', lambda: forall(0, W - 1, lambda k: med.new[k] == med[k + 1]))
    mid = If((g1 + 1) / 2 <= 0, 1, (g1 + 1) / 2)
    c.ensures('median of the recorded keys', lambda: c.ret() == ORDI(g1, lam(lambda j: If(And(j >= 0, j < g1), med.new[W - 1 - j], 0)), mid - 1))
    c.ensures('result is a key', lambda: And(c.ret() >= 1, c.ret() <= 24))
    c.ensures('recorded keys', lambda: forall(W - g1, W, lambda k: And(med.new[k] >= 1, med.new[k] <= 24)))
    c.ensures('keys', lambda: forall(0, W, lambda k: And(med.new[k] >= 0, med.new[k] <= 24)))
    for nm, q, pr in (('major', ma, pa), ('minor', mi, pi)):
        c.ensures(nm + ' correlations', lambda q=q, pr=pr: forall(0, B, lambda k: q.new[k] == corr(lambda i: mean.new[i], lambda i: pr[i], k - 2, B)))

# ---- construction
from contracts import pitch
from contracts.windows import dbl
UNITS += pitch.UNITS
MAJ = ['0.0384', '0.0629', '0.0258', '0.0121', '0.0146', '0.0106', '0.0364', '0.0610', '0.0267', '0.0126', '0.0121', '0.0086', '0.0364', '0.0623', '0.0279', '0.0275', '0.0414', '0.0186', '0.0173', '0.0248', '0.0145', '0.0364', '0.0631', '0.0262', '0.0129', '0.0150', '0.0098', '0.0312', '0.0521', '0.0235', '0.0129', '0.0142', '0.0095', '0.0289', '0.0478', '0.0239']
MIN = ['0.0375', '0.0682', '0.0299', '0.0119', '0.0138', '0.0093', '0.0296', '0.0543', '0.0257', '0.0292', '0.0519', '0.0246', '0.0159', '0.0234', '0.0135', '0.0291', '0.0544', '0.0248', '0.0137', '0.0176', '0.0104', '0.0352', '0.0670', '0.0302', '0.0222', '0.0349', '0.0164', '0.0174', '0.0297', '0.0166', '0.0222', '0.0401', '0.0202', '0.0175', '0.0270', '0.0146']
def ceilI(x): return -z3.ToInt(-x)
@contract('GetKeyMode::GetKeyMode(GetKeyMode::Config)', 'C13', weight=2)
def _(c):
    o = c.this(GK, ctor=True); g = c.obj('struct.GetKeyMode::Config'); dec = g.decimationFactor
    fs = g.sampleRate / z3.ToReal(dec); fs = If(fs < 1, RealVal(1), fs)
    f = lambda m: g.tuningFrequency * pitch.POW(RealVal(2), (m + RealVal(0) / 100 - 69) / 12)
    q0 = cq._Conf(); q0.FS, q0.min, q0.max, q0.BPO, q0.CQThresh = fs, f(RealVal(48)), f(RealVal(96)), IntVal(B), dbl(0.0054)
    q = cq.chromaconf(q0); Q, K_, L = cq.cqpre(c, q); n = cq.npow(L)
    rows = lambda sec: (lambda k: If(k < 1, IntVal(1), k))(ceilI(sec * fs / z3.ToReal(n)))
    C, W = rows(g.hpcpAverage), rows(g.medianAverage)
    c.requires(And(L >= 2, dec >= 1, dec <= 2**10, n <= 2**20, g.frameOverlapFactor >= 1, C <= 2**20, W <= 2**20, ceilI(g.hpcpAverage * fs / z3.ToReal(n)) >= -2**31, ceilI(g.medianAverage * fs / z3.ToReal(n)) >= -2**31), 'configuration')
    N = lambda: o.new
    c.ensures('frame, hop and history lengths', lambda: And(N().m_chromaFrameSize == n, N().m_chromaHopSize == n / g.frameOverlapFactor, N().m_decimationFactor == dec, N().m_chromaBufferSize == C, N().m_medianWinSize == W))
    c.ensures('empty histories', lambda: And(N().m_bufferIndex == 0, N().m_chromaBufferFilling == 0, N().m_medianBufferFilling == 0, forall(0, B * C, lambda k: N().arr('m_chromaBuffer', DOUBLE, B * C)[k] == 0), forall(0, W, lambda k: N().arr('m_medianFilterBuffer', I32, W)[k] == 0)))
    c.ensures('memory', lambda: And(*[x for a, k, el in (('m_decimatedBuffer', n, DOUBLE), ('m_meanHPCP', B, DOUBLE), ('m_majCorr', B, DOUBLE), ('m_minCorr', B, DOUBLE), ('m_sortedBuffer', W, I32), ('m_keyStrengths', 24, DOUBLE)) for x in c.allocated(N(), a, IntVal(k) if isinstance(k, int) else k, el)]))
    for a, t in (('m_majProfileNorm', MAJ), ('m_minProfileNorm', MIN)):
        c.ensures('profile ' + a, lambda a=a, t=t: And(*[N().arr(a, DOUBLE, IntVal(B))[i] - N().arr(a, DOUBLE, IntVal(B))[0] == dbl(float(t[i])) - dbl(float(t[0])) for i in range(B)]))
    for k in range(3): c.ensures('decimator: ' + ('sizes', 'buffer', 'cleared state')[k], lambda k=k: decimators.decmade(c, N().pobj('m_decimator', DEC), n * dec, dec)[k][1]())
    for k in range(6): c.ensures('chromagram %d' % k, lambda k=k: cq.chromamade(c, N().pobj('m_chroma', cq.CH), q, L, K_, 2)[k][1]())
