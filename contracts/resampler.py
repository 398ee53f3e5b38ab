"""dsp/rateconversion/Resampler"""
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.windows import kpre, klen, kbeta, bess, kval, sval, dbl, KW, SW
UNITS = ['dsp/rateconversion/Resampler.cpp', 'base/KaiserWindow.cpp', 'base/SincWindow.cpp', 'maths/MathUtilities.cpp']
RS = 'class.Resampler'; PH = 'struct.Resampler::Phase'
AII = z3.ArraySort(I, I)
# position of the k-th output of a call: phase and number of samples consumed, from the tables of next phases and drops
POS = RecFun('RESAMPLE', [AII, AII, I], [I, I], lambda a: [a[2], IntVal(0)], lambda a, t, s: [z3.Select(a[0], s[0]), s[1] + z3.Select(a[1], s[0])])
def ceildiv(n, t, s): return -z3.ToInt(-(z3.ToReal(n) * z3.ToReal(t) / z3.ToReal(s)))
def tables(o, P, Q, L):
    """what construction leaves in the phase tables: spacings P (input) and Q (output), filter of L taps split by phase"""
    ph = o.arr('m_phaseData', PH, P); nx = ph.f('nextPhase'); dr = ph.f('drop'); fs = lambda p: ph[p].vec('filter', DOUBLE).size
    return ph, nx, dr, fs, forall(0, P, lambda p: And(nx[p] >= 0, nx[p] < P, dr[p] >= 0, nx[p] == p - Q + dr[p] * P, fs(p) >= 0, fs(p) * P >= L - p, Or(fs(p) == 0, (fs(p) - 1) * P < L - p), dr[p] <= fs(p), fs(p) <= 2**24))
def rates(o): return And(o.m_gcd >= 1, o.m_targetRate >= 1, o.m_sourceRate >= 1, o.m_targetRate <= 2**30, o.m_sourceRate <= 2**30, o.m_targetRate % o.m_gcd == 0, o.m_sourceRate % o.m_gcd == 0, o.m_filterLength >= o.m_sourceRate / o.m_gcd, o.m_filterLength <= 2**24, o.m_peakToPole > 0)
class Inv:
    def __init__(s, c, o):
        s.o = o; s.P = o.m_targetRate / o.m_gcd; s.Q = o.m_sourceRate / o.m_gcd; s.L = o.m_filterLength; P = s.P
        c.requires(rates(o), 'rates'); c.requires(And(P >= 1, P <= 2**30, s.Q >= 1))
        s.ph, s.next, s.drop, s.fs, t = tables(o, P, s.Q, s.L); c.requires(t, 'phase tables')
        s.flt = lambda p, i: s.ph[p].vec('filter', DOUBLE)[i]; s.buf = o.vec('m_buffer', DOUBLE)
        c.requires(And(o.m_phase >= 0, o.m_phase < P, o.m_bufferOrigin >= 0, o.m_bufferOrigin <= s.buf.size, s.buf.size <= 2**30), 'position')
        s.slack = s.buf.size * P + o.m_phase - s.L      # (virtual) samples beyond the filter at the next output
    def args(s): return [arrof(lambda p: s.next[p]), arrof(lambda p: s.drop[p]), s.o.m_phase]
@contract('Resampler::reconstructOne()', 'C08')
def _(c):
    o = c.this(RS); v = Inv(c, o)
    c.requires(o.m_bufferOrigin + v.fs(o.m_phase) <= v.buf.size, 'enough samples')
    c.result(Sum(0, v.fs(o.m_phase), lambda i: v.buf[o.m_bufferOrigin + i] * v.flt(o.m_phase, i)))
    c.sets(o, 'm_bufferOrigin', o.m_bufferOrigin + v.drop[o.m_phase]); c.sets(o, 'm_phase', v.next[o.m_phase])
class Proc:
    """what a call with n samples of src does, in terms of its result r()"""
    def __init__(s, c, o, src, n, r):
        c.requires(o.m_bufferOrigin == 0); s.v = v = Inv(c, o); s.o = o
        s.mx = mx = ceildiv(n, o.m_targetRate, o.m_sourceRate); s.n = n; s.r = r
        c.requires(And(n >= 0, n <= 2**28, v.buf.size <= 2**28, mx <= 2**30), 'sizes'); c.valid(src, n)
        s.S = S = v.buf.size; B = lambda i: If(i < S, v.buf[i], src[i - S])
        A = v.args(); s.phase = phase = lambda k: POS.f[0](*A, k); s.org = org = lambda k: POS.f[1](*A, k)
        s.need = lambda k: org(k) + v.fs(phase(k)); s.B = B
        scale = z3.ToReal(o.m_targetRate) / z3.ToReal(o.m_gcd) / o.m_peakToPole
        s.out = lambda k: scale * Sum(0, v.fs(phase(k)), lambda i: B(org(k) + i) * v.flt(phase(k), i))
        c.setsize(v.buf, None); c.assigns(v.buf); c.sets(o, 'm_bufferOrigin', IntVal(0)); c.free_fields(o, ['m_phase'])
        c.ensures('never more than the bound', lambda: And(r() >= 0, r() <= mx))
        c.ensures('every available sample up to the bound', lambda: And(forall(0, r(), lambda k: s.need(k) <= S + n), Or(r() == mx, s.need(r()) > S + n)))
        c.ensures('position', lambda: o.new.m_phase == phase(r()))
        c.ensures('position in range', lambda: And(o.new.m_phase >= 0, o.new.m_phase < v.P))
        c.ensures('buffer', lambda: And(org(r()) >= 0, org(r()) <= S + n, v.buf.new.size == S + n - org(r()), forall(0, S + n - org(r()), lambda i: v.buf.new[i] == B(org(r()) + i))))
        c.ensures('count', lambda: Or(r() == mx, r() * v.Q > v.slack + n * v.P))
        c.ensures('advance', lambda: v.buf.new.size * v.P + o.new.m_phase - v.L == v.slack + n * v.P - r() * v.Q)
@contract('Resampler::process(double const*, double*, int)', 'C08')
def _(c):
    o = c.this(RS); src = c.arr(); dst = c.arr(); n = c.int(); r = c.ret
    q = Proc(c, o, src, n, r); c.valid(dst, q.mx); c.assigns(dst, None, 0, q.mx); phase, org, need, out, S, v = q.phase, q.org, q.need, q.out, q.S, q.v
    c.ensures('values', lambda: forall(0, q.mx, lambda k: dst.new[k] == If(k < r(), out(k), dst[k])))
    c.hint_cell(o, 'm_phase', lambda it: phase(it)); c.hint_cell(o, 'm_bufferOrigin', lambda it: org(it))
    c.hint_array(dst, lambda it, k, e: If(And(k >= 0, k < it), out(k), e(k)))
    c.loop_inv('available', lambda it: And(forall(0, it, lambda k: need(k) <= S + n), org(it) >= 0, org(it) <= S + n, phase(it) >= 0, phase(it) < v.P, org(it) * v.P == phase(it) - o.m_phase + it * v.Q))
@contract('Resampler::process(double const*, int)', 'C08')
def _(c):
    res = c.outvec(); o = c.this(RS); src = c.arr(); n = c.int()
    q = Proc(c, o, src, n, lambda: res.new.size)
    c.ensures('values', lambda: forall(0, res.new.size, lambda k: res.new[k] == q.out(k)))
@lemma('the output does not depend on how the input is divided into calls', 'C08')
def _(eng):
    """k-th output of a call that follows r outputs of an earlier one = output r + k of a single call on the joined input:
    induction on k over the positions, then the value, from the postconditions of process"""
    from qmv.core import State
    nx, dr = z3.Consts('nx dr', AII); p0, r, k = z3.Ints('p0 r k'); A = [nx, dr, p0]; f, g = POS.f
    B = [nx, dr, f(*A, r)]
    st = State(); st.fact(r >= 0)
    eng.oblige(st, And(f(*B, 0) == f(*A, r), g(*B, 0) + g(*A, r) == g(*A, r)), 'lemma', 'positions, base')
    st = State(); st.fact(And(r >= 0, k >= 0, f(*B, k) == f(*A, r + k), g(*B, k) + g(*A, r) == g(*A, r + k)))
    eng.oblige(st, And(f(*B, k + 1) == f(*A, r + k + 1), g(*B, k + 1) + g(*A, r) == g(*A, r + k + 1)), 'lemma', 'positions, step')
    old = z3.Function('old', I, R); s1 = z3.Function('src1', I, R); s2 = z3.Function('src2', I, R); b = z3.Function('kept', I, R); flt = z3.Function('flt', I, I, R); S, n1, n2, j = z3.Ints('S n1 n2 j')
    joined = lambda i: If(i < S, old(i), If(i < S + n1, s1(i - S), s2(i - S - n1)))
    S2 = S + n1 - g(*A, r); second = lambda i: If(i < S2, b(i), s2(i - S2))
    st = State(); st.fact(And(r >= 0, S >= 0, n1 >= 0, n2 >= 0, j >= 0, g(*A, r) >= 0, g(*A, r) <= S + n1))
    st.fact(forall(0, S2, lambda i: b(i) == If(g(*A, r) + i < S, old(g(*A, r) + i), s1(g(*A, r) + i - S))))
    eng.oblige(st, second(j) == joined(g(*A, r) + j), 'lemma', 'what the second call sees is the joined input from there on')
@lemma('number of outputs: between ceil(N t / s) and one more, whatever the calls', 'C08')
def _(eng):
    """w outputs after N samples (spacings P, Q, slack e of the first output in [0, Q)): kept by a call with n samples and r
    outputs, from the postconditions of process (count, availability at the last output, bound)"""
    from qmv.core import State
    P, Q, e, N, n, w, r, mx, cN, cn, cT = z3.Ints('P Q e N n w r mx cN cn cT')
    # products as single unknowns: a = N P, b = n P, u = w Q, v = r Q, m = mx Q
    st = State(); X = lambda k: k * Q
    st.fact(And(P >= 1, Q >= 1, e >= 0, e < Q, N >= 0, n >= 0, w >= 0, r >= 0, mx >= 0))
    ceil_ = lambda c, x: And((c - 1) * Q < x * P, x * P <= c * Q)
    st.fact(ceil_(cN, N)); st.fact(ceil_(mx, n)); st.fact(ceil_(cT, N + n))
    st.fact(And(w >= cN, (w - 1) * Q <= e + N * P))
    # call: r <= mx; the last output was available; fewer than mx only when the next was not available
    st.fact(And(r <= mx, Implies(r > 0, (w + r - 1) * Q <= e + (N + n) * P), Or(r == mx, (w + r) * Q > e + (N + n) * P)))
    eng.oblige(st, (w + r - 1) * Q <= e + (N + n) * P, 'lemma', 'nothing before its time')
    eng.oblige(st, w + r >= cT, 'lemma', 'at least ceil((N + n) t / s)')
    eng.oblige(st, w + r <= cT + 1, 'lemma', 'at most one more')
