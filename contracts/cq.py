from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = ['dsp/chromagram/ConstantQ.cpp']
CQ = 'class.ConstantQ'; SK = 'struct.ConstantQ::SparseKernel'
def kernel(c, o):
    s = o.pobj('m_sparseKernel', SK); i_, j_, im, re = s.vec('is', I32), s.vec('js', I32), s.vec('imag', DOUBLE), s.vec('real', DOUBLE)
    n = re.size; N = o.m_FFTLength; U = o.m_uK
    c.requires(And(N >= 2, N <= 2**26, U >= 0, U <= 2**26, i_.size == n, j_.size == n, im.size == n), 'class invariant: kernel arrays of equal length')
    c.requires(forall(0, n, lambda k: And(i_[k] >= 0, i_[k] < N)), 'spectrum bins in range')
    c.requires(forall(0, n, lambda k: And(j_[k] >= 0, j_[k] < U)), 'constant-Q bins in range')
    return n, N, U, i_, j_, im, re
def cqre(k, n, N, i_, j_, re, im, fr, fi):
    return Sum(0, n, lambda i: If(And(j_[i] == k, i_[i] != 0), re[i] * fr(N - i_[i]) - im[i] * fi(N - i_[i]), RealVal(0)))
def cqim(k, n, N, i_, j_, re, im, fr, fi):
    return Sum(0, n, lambda i: If(And(j_[i] == k, i_[i] != 0), re[i] * fi(N - i_[i]) + im[i] * fr(N - i_[i]), RealVal(0)))
@contract('ConstantQ::process(double const*, double const*, double*, double*)', 'C12', weight=3)
def _(c):
    o = c.this(CQ); fr, fi, cr, ci = [c.arr() for _ in range(4)]
    n, N, U, i_, j_, im, re = kernel(c, o)
    for x in (fr, fi): c.valid(x, N)
    for x in (cr, ci): c.valid(x, U)
    FR = lambda k: fr[k]; FI = lambda k: fi[k]
    c.assigns(cr, lambda k: cqre(k, n, N, i_, j_, re, im, FR, FI), 0, U)
    c.assigns(ci, lambda k: cqim(k, n, N, i_, j_, re, im, FR, FI), 0, U)

@contract('ConstantQ::process(double const*)', 'C12', weight=3)
def _(c):
    o = c.this(CQ); f = c.arr()
    n, N, U, i_, j_, im, re = kernel(c, o); c.valid(f, 2 * N)
    out = o.arr('m_CQdata', DOUBLE, 2 * U)
    FR = lambda k: f[2 * k]; FI = lambda k: f[2 * k + 1]
    c.assigns(out, lambda k: If(k % 2 == 0, cqre(k / 2, n, N, i_, j_, re, im, FR, FI), cqim(k / 2, n, N, i_, j_, re, im, FR, FI)), 0, 2 * U)
    c.result_ptr(out)

from contracts import mathutils, fft, windows
from contracts.fft import fw_re, fw_im, rplan, CPX
from contracts.mathutils import npow
UNITS += ['dsp/chromagram/Chromagram.cpp', 'maths/MathUtilities.cpp', 'dsp/transforms/FFT.cpp', 'ext/kissfft/kiss_fft.c', 'ext/kissfft/tools/kiss_fftr.c']
MAXABS = z3.Function('MAXABS', I, AIR, R)
CH = 'class.Chromagram'; SQRT = uf('sqrt', 1); POW = uf('pow', 2); LOG = uf('log', 1)
def chroma(c, o, res=True):
    q = o.pobj('m_ConstantQ', CQ); n, N, U, i_, j_, im, re = kernel(c, q); B_ = o.m_BPO; t = o.m_normalise
    c.requires(And(B_ >= 1, B_ <= 2**20, o.m_uK == U, o.m_frameSize == N, o.m_skGenerated == 1, t >= 0, t <= 2), 'class invariant (kernel generated)')
    cr = o.arr('m_CQRe', DOUBLE, U); ci = o.arr('m_CQIm', DOUBLE, U); out = o.arr('m_chromadata', DOUBLE, B_)
    c.assigns(cr, None, 0, U); c.assigns(ci, None, 0, U)
    c.assigns(out, None, 0, B_)
    if res: c.result_ptr(out)
    def spec(fr, fi, fold=True):
        a = lambda k: cqre(k, n, N, i_, j_, re, im, fr, fi); b = lambda k: cqim(k, n, N, i_, j_, re, im, fr, fi)
        if fold: a = c.fold('ConstantQ::process', cr, U, a, 'cqre'); b = c.fold('ConstantQ::process', ci, U, b, 'cqim')
        C = lambda i: Sum(0, U / B_, lambda v: SQRT(a(v * B_ + i) * a(v * B_ + i) + b(v * B_ + i) * b(v * B_ + i)))
        if fold: C = c.fold('<MathUtilities::normalise', out, B_, C, 'octavesum')
        S = lambda: Sum(0, B_, C)
        ab = lambda x: If(x >= 0, x, -x)
        w = z3.Int('w')
        ismax = lambda m: And(m >= 0, forall(0, B_, lambda i: ab(C(i)) <= m), Or(m == 0, z3.Exists([w], And(w >= 0, w < B_, ab(C(w)) == m))))
        c.ensures('sum over the octaves', lambda: Implies(t == 0, forall(0, B_, lambda i: out.new[i] == C(i))))
        c.ensures('unit sum', lambda: Implies(t == 1, forall(0, B_, lambda i: out.new[i] == If(S() == 0, C(i), C(i) / S()))))
        def unitmax():
            m = MAXABS(B_, arrof(C))    # the largest absolute value of a finite sequence (0 when empty), characterised by ismax
            return Implies(And(t == 2, ismax(m)), forall(0, B_, lambda i: out.new[i] == If(m == 0, C(i), C(i) / m)))
        c.ensures('unit max', unitmax)
        c.eng.assumptions.add('definition: a finite sequence has a largest absolute value (0 when empty)')
    return N, spec
@contract('Chromagram::process(double const*, double const*)', 'C12', weight=4)
def _(c):
    o = c.this(CH); fr, fi = c.arr(), c.arr()
    N, spec = chroma(c, o)
    for x in (fr, fi): c.valid(x, N)
    spec(lambda k: fr[k], lambda k: fi[k])

def framed(o, c, x, N):
    w = o.pobj('m_window', 'class.Window'); c.requires(w.m_size == N, 'window of the frame length'); wc = w.arr('m_cache', DOUBLE, N)
    b = o.arr('m_windowbuf', DOUBLE, N); c.assigns(b, None, 0, N)
    return lambda k: x[If(k < N / 2, k + N / 2, k - N / 2)] * wc[If(k < N / 2, k + N / 2, k - N / 2)]
def transform(c, o, N):
    f = o.pobj('m_FFT', 'class.FFTReal'); d = f.pobj('m_d', 'class.FFTReal::D')
    c.requires(And(d.m_n == N, N % 2 == 0, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'transform of the frame length')
    m = d.arr('m_c', CPX, N)
    for k in 'ri': c.assigns(m.f(k), None, 0, N)
    ro = o.arr('m_FFTRe', DOUBLE, N); io = o.arr('m_FFTIm', DOUBLE, N); c.assigns(ro, None, 0, N); c.assigns(io, None, 0, N)
@contract('Chromagram::process(double const*)', 'C12', weight=4)
def _(c):
    o = c.this(CH); x = c.arr()
    N, spec = chroma(c, o); c.valid(x, N)
    transform(c, o, N); X = framed(o, c, x, N)
    X = c.fold('<FFTReal::forward', o.arr('m_windowbuf', DOUBLE, N), N, X, 'frame')
    ro = o.arr('m_FFTRe', DOUBLE, N); io = o.arr('m_FFTIm', DOUBLE, N)
    c.ensures('spectrum of the windowed, half-swapped frame', lambda: forall(0, N, lambda k: And(ro.new[k] == fw_re(N, k, X), io.new[k] == fw_im(N, k, X))))
    spec(lambda k: ro.new[k], lambda k: io.new[k], False)

def ceilI(x): return -z3.ToInt(-x)
def cqconf(g):
    """documented configuration: Q, number of bins, length of the transform"""
    bpo = z3.ToReal(g.BPO); Q = 1 / (POW(RealVal(2), 1 / bpo) - 1)
    K_ = ceilI(bpo * LOG(g.max / g.min) / LOG(RealVal(2)))
    L = ceilI(Q * g.FS / g.min)
    return Q, K_, L
def cqpre(c, g):
    Q, K_, L = cqconf(g)
    c.requires(And(g.BPO >= 1, g.BPO <= 2**20, g.min > 0, g.max > g.min, g.FS > 0, POW(RealVal(2), 1 / z3.ToReal(g.BPO)) > 1, LOG(RealVal(2)) > 0, K_ >= 0, K_ <= 2**26, L >= 1, L <= 2**26), 'configuration')
    return Q, K_, L
def cqpost(c, o, g, Q, K_, L):
    n = npow(L)
    c.ensures('parameters', lambda: And(o.new.m_dQ == Q, o.new.m_uK == K_, o.new.m_FFTLength == n, o.new.m_hop == n / 8, o.new.m_FS == g.FS, o.new.m_FMin == g.min, o.new.m_FMax == g.max, o.new.m_BPO == g.BPO, o.new.m_CQThresh == g.CQThresh))
    c.ensures('memory', lambda: And(*c.allocated(o.new, 'm_CQdata', 2 * K_)))
@contract('ConstantQ::ConstantQ(CQConfig)', 'C12')
def _(c):
    o = c.this(CQ, ctor=True); g = c.obj('struct.CQConfig')
    Q, K_, L = cqpre(c, g); cqpost(c, o, g, Q, K_, L)
    c.ensures('no kernel yet', lambda: c.null_after(o.new, 'm_sparseKernel'))
class _Conf: pass
def chromaconf(g):
    """range extended to whole octaves, everything else as given"""
    q = _Conf(); q.FS, q.min, q.BPO, q.CQThresh = g.FS, g.min, g.BPO, g.CQThresh
    q.max = g.min * POW(RealVal(2), z3.ToReal(ceilI(LOG(g.max / g.min) / LOG(RealVal(2)))))
    return q
def chromamade(c, o, q, L, K_, norm):
    n = npow(L); k = o.pobj('m_ConstantQ', CQ)
    return [('parameters', lambda: And(o.m_FMin == q.min, o.m_FMax == q.max, o.m_BPO == q.BPO, o.m_normalise == norm, o.m_uK == K_, o.m_frameSize == n, o.m_hopSize == n / 8, o.m_skGenerated == 0)),
            ('constant-Q transform of the extended range', lambda: And(k.m_uK == K_, k.m_FFTLength == n, k.m_hop == n / 8, k.m_FS == q.FS, k.m_FMin == q.min, k.m_FMax == q.max, k.m_BPO == q.BPO, k.m_CQThresh == q.CQThresh)),
            ('no kernel yet', lambda: c.null_after(k, 'm_sparseKernel')),
            ('memory', lambda: And(*[x for a, s in (('m_chromadata', q.BPO), ('m_FFTRe', n), ('m_FFTIm', n), ('m_CQRe', K_), ('m_CQIm', K_)) for x in c.allocated(o, a, s)])),
            ('transform of the frame length', lambda: fft.madefft(c, o.pobj('m_FFT', 'class.FFTReal'), n)),
            ('no window yet', lambda: And(c.null_after(o, 'm_window'), c.null_after(o, 'm_windowbuf')))]
@contract('Chromagram::Chromagram(ChromaConfig)', 'C12', weight=2)
def _(c):
    o = c.this(CH, ctor=True); g = c.obj('struct.ChromaConfig'); q = chromaconf(g)
    Q, K_, L = cqpre(c, q); c.requires(And(L >= 2, g.normalise >= 0, g.normalise <= 2), 'frames of at least two samples')
    for name in range(6): c.ensures(['parameters', 'constant-Q transform of the extended range', 'no kernel yet', 'memory', 'transform of the frame length', 'no window yet'][name], lambda name=name: chromamade(c, o.new, q, L, K_, g.normalise)[name][1]())
