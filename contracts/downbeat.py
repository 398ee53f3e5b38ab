from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.mathutils import *
from contracts.fft import *
from contracts import fft
UNITS = ['dsp/tempotracking/DownBeat.cpp', 'maths/MathUtilities.cpp', 'dsp/rateconversion/Decimator.cpp'] + fft.UNITS
D = 'class.DownBeat'
CAP = 2**24
LOG = uf('log', 1)
@contract('DownBeat::measureSpecDiff(std::vector<double, std::allocator<double> >, std::vector<double, std::allocator<double> >)', 'C18', optional=True)
def _(c):
    o = c.this(D); a = c.vec(); b = c.vec(); n = a.size
    c.requires(And(n <= CAP, b.size == n)); c.free(a); c.free(b)
    m = If(n / 4 < 512, n / 4, 512)
    eps = toz(2.2204e-016)
    sa = Sum(0, m, lambda i: a[i] + eps); sb = Sum(0, m, lambda i: b[i] + eps)
    def p(v, s, i): q = (v[i] + eps) / s; return If(q == 0, RealVal(1), q)
    def term(i):
        x, y = p(a, sa, i), p(b, sb, i); h = x / 2 + y / 2
        return -h * LOG(h) + x * LOG(x) / 2 + y * LOG(y) / 2
    c.result(Sum(0, m, term))
@contract('DownBeat::findDownBeats(float const*, unsigned long, std::vector<double, std::allocator<double> > const&, std::vector<int, std::allocator<int> >&)', 'C18')
def _(c):
    c.ignore('FFTReal::forward', 'DownBeat::measureSpecDiff', 'MathUtilities::adaptiveThreshold')
    o = c.this(D); audio = c.arr(FLOAT); n = c.int(); beats = c.vec(); db = c.vec(I32); nb = beats.size; z = db.size
    sd = o.vec('m_beatsd', DOUBLE); L = o.m_beatframesize
    d = o.pobj('m_fft', 'class.FFTReal').pobj('m_d', 'class.FFTReal::D')
    c.requires(And(n >= 0, n <= 2**30, nb <= CAP, z <= CAP, o.m_increment >= 1, o.m_increment <= 2**20, o.m_factor >= 1, o.m_factor <= 64, o.m_bpb >= 0, o.m_bpb <= 2**16, L >= 2, L <= 2**20, L % 2 == 0, d.m_n == L, rplan(d, 'm_planf', 0), rplan(d, 'm_plani', 1)), 'class invariant')
    c.requires_each(beats, nb, lambda v: And(v >= 0, v <= 2**30), 'beat positions')
    c.valid(audio, n)
    for x in ('m_beatframe', 'm_fftRealOut', 'm_fftImagOut'): c.assigns(o.arr(x, DOUBLE, L), None, 0, L)
    m = d.arr('m_c', CPX, L)
    for f in 'ri': c.assigns(m.f(f), None, 0, L)
    c.free(db); c.assigns(sd, None, 0, None); c.setsize(sd, If(Or(n == 0, nb < 2), 0, nb - 2))
    c.opaque('newspec', 'oldspec', 'm_fft', 'm_beatframe', 'm_beatsd', 'dbcand')
    c.loop_inv('differences so far', lambda it: sd.loop.size == If(it > 0, it - 1, 0))
    c.local_inv('count', lambda loc, it: And(loc.phi('count') >= 0, loc.phi('count') <= it))
    ts = If(o.m_bpb == 0, 4, o.m_bpb)
    new = db.new
    c.ensures('earlier contents kept', lambda: And(db.new.size >= z, forall(0, z, lambda k: db.new[k] == db[k])))
    c.ensures('no audio, no downbeats', lambda: Implies(n == 0, db.new.size == z))
    c.ensures('one beat in every bar', lambda: forall(z + 1, db.new.size, lambda k: db.new[k] == db.new[k - 1] + ts))
    c.ensures('first downbeat in the first bar', lambda: Implies(db.new.size > z, And(db.new[z] >= 0, db.new[z] < ts, db.new[z] < nb)))
    c.ensures('up to the last beat', lambda: Implies(And(n > 0, nb >= ts), And(db.new.size > z, db.new[db.new.size - 1] < nb, db.new[db.new.size - 1] + ts >= nb)))
