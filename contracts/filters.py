from qmv.dsl import *
from qmv.registry import contract, lemma
UNITS = ['dsp/signalconditioning/Filter.cpp', 'dsp/signalconditioning/FiltFilt.cpp']
F = 'class.Filter'; FF = 'class.FiltFilt'; PAR = 'struct.Filter::Parameters'

# y(t) of the difference equation: args = X (input incl. history, shifted: position t is X[t+sz]), a, b, Q (earlier outputs, newest first), sz, fir
def X_at(args, t): return z3.Select(args[0], t)
def hist(args, t): return z3.Select(args[3], -1 - t)
def body(args, t, Y):
    a, b, sz, fir = args[1], args[2], args[4], args[5]
    bs = Sum(0, sz, lambda i: z3.Select(b, i) * X_at(args, t - i))
    as_ = Sum(0, sz - 1, lambda i: z3.Select(a, i + 1) * Y(t - 1 - i))
    return If(fir != 0, bs, bs - as_)
YF = CovFun('DIFFEQ', [AIR, AIR, AIR, AIR, I, I], hist, body, reads={0: 'le'})

def inv(c, o, st=None):
    """class invariant established by the constructor and kept by every operation"""
    sz = o.m_sz; om = o.m_offmax
    a, b, ba, bb = [o.vec(x, DOUBLE) for x in ('m_a', 'm_b', 'm_bufa', 'm_bufb')]
    return And(sz >= 1, sz <= 2**28, o.m_order == sz - 1, om >= 0, om <= 1000, b.size == sz, bb.size == sz + om,
               Implies(o.m_fir == 0, And(a.size == sz, ba.size == sz + om)), o.m_offb >= 0, o.m_offb <= om, o.m_offa >= 0, o.m_offa <= om)

def stream(o, src, n):
    """arguments of DIFFEQ: input (with history at negative positions), coefficients, output history"""
    ba, bb = o.vec('m_bufa', DOUBLE), o.vec('m_bufb', DOUBLE); sz = o.m_sz
    X = arrof(lambda t: If(t >= 0, If(t < n, src[t], 0), If(t > -sz, bb[o.m_offb - 1 - t], 0)))
    Q = arrof(lambda j: If(And(o.m_fir == 0, j >= 0, j < sz - 1), ba[o.m_offa + j], 0))
    return coeffs(o, X, Q)
def coeffs(o, X, Q):
    a, b = o.vec('m_a', DOUBLE), o.vec('m_b', DOUBLE)
    return [X, arrof(lambda j: a[j]), arrof(lambda j: b[j]), Q, o.m_sz, o.m_fir]

@contract('Filter::reset()', 'C06')
def _(c):
    o = c.this(F); c.requires(inv(c, o), 'class invariant')
    ba, bb = o.vec('m_bufa', DOUBLE), o.vec('m_bufb', DOUBLE)
    c.sets(o, 'm_offa', o.m_offmax); c.sets(o, 'm_offb', o.m_offmax)
    c.assigns(bb, lambda k: RealVal(0), 0, bb.size)
    c.assigns(ba, lambda k: RealVal(0), 0, If(o.m_fir == 0, ba.size, 0))

@contract('Filter::process(double const*, double*, int)', 'C06', weight=3)
def _(c):
    o = c.this(F); src = c.arr(); dst = c.arr(); n = c.int()
    c.requires(And(n >= 0, inv(c, o)), 'class invariant'); c.valid(src, n); c.valid(dst, n)
    ba, bb = o.vec('m_bufa', DOUBLE), o.vec('m_bufb', DOUBLE); sz = o.m_sz; om = o.m_offmax; fir = o.m_fir
    A = stream(o, src, n); X = lambda t: z3.Select(A[0], t); Y = lambda t: YF.at(A, t)
    c.assigns(dst, lambda k: Y(k), 0, n)
    c.free_fields(o, ['m_offa', 'm_offb']); c.assigns(ba, None, 0, ba.size); c.assigns(bb, None, 0, bb.size)
    def post(q, t):
        """history held by the object q after t samples: the last inputs and outputs, newest first"""
        qa, qb = q.vec('m_bufa', DOUBLE), q.vec('m_bufb', DOUBLE)
        return [('offsets', And(q.m_offb >= 0, q.m_offb <= om, q.m_offa >= 0, q.m_offa <= om)),
                ('input history', forall(q.m_offb, q.m_offb + sz - 1, lambda k: qb[k] == X(t - 1 - (k - q.m_offb)))),
                ('output history', Implies(fir == 0, forall(q.m_offa, q.m_offa + sz - 1, lambda k: qa[k] == Y(t - 1 - (k - q.m_offa)))))]
    for i, nm in enumerate(('offsets', 'input history', 'output history')):
        c.ensures(nm, lambda i=i: post(o.new, n)[i][1])
        c.loop_inv(nm, lambda it, i=i: post(o.loop, it)[i][1])
    c.hint_array(dst, lambda it, k, e: If(And(k >= 0, k < it), Y(k), e(k)))

@contract('Filter::Filter(Filter::Parameters)', 'C06')
def _(c):
    o = c.this(F, ctor=True); p = c.obj(PAR)
    a, b = p.vec('a', DOUBLE), p.vec('b', DOUBLE)
    c.requires(And(a.size <= 2**28, b.size <= 2**28))
    c.throws(If(a.size == 0, b.size == 0, a.size != b.size))
    N = lambda f, nm=DOUBLE: o.new.vec(f, DOUBLE)
    c.ensures('class invariant', lambda: inv(c, o.new))
    c.ensures('sizes', lambda: And(o.new.m_sz == b.size, o.new.m_order == b.size - 1, (o.new.m_fir != 0) == (a.size == 0)))
    c.ensures('coefficients', lambda: And(N('m_b').size == b.size, N('m_a').size == a.size, forall(0, b.size, lambda k: N('m_b')[k] == b[k]), forall(0, a.size, lambda k: N('m_a')[k] == a[k])))
    c.ensures('zero history', lambda: And(forall(0, N('m_bufb').size, lambda k: N('m_bufb')[k] == 0), forall(0, N('m_bufa').size, lambda k: N('m_bufa')[k] == 0)))

@contract('Filter::getOrder() const', 'C06', optional=True)
def _(c):
    o = c.this(F); c.result(o.m_order)

def opaque(X, a, b, sz, fir, y, t):
    """the difference equation for an output function y at position t >= 0"""
    bs = Sum(0, sz, lambda i: b(i) * X(t - i)); as_ = Sum(0, sz - 1, lambda i: a(i + 1) * y(t - 1 - i))
    return If(fir != 0, bs, bs - as_)

@lemma('outputs up to t are determined by the input up to t (congruence used for DIFFEQ)', 'C06', 'C07')
def _(eng):
    from qmv.core import State
    st = State(); F1 = lambda n: z3.Function(n, I, R); a, b, X1, X2, y1, y2 = map(F1, ('a', 'b', 'X1', 'X2', 'y1', 'y2'))
    sz, fir, t = z3.Ints('sz fir t'); st.fact(And(sz >= 1, t >= 0))
    st.fact(z3.ForAll([j0], Implies(j0 <= t, X1(j0) == X2(j0)))); st.fact(z3.ForAll([j0], Implies(j0 < t, y1(j0) == y2(j0))))
    eng.oblige(st, opaque(X1, a, b, sz, fir, y1, t) == opaque(X2, a, b, sz, fir, y2, t), 'lemma', 'induction step')
j0 = z3.Int('j0')

@lemma('chunking: a block filtered from the history left by the preceding ones continues the stream', 'C06')
def _(eng):
    from qmv.core import State
    st = State(); F1 = lambda n: z3.Function(n, I, R); a, b, X1, X2, y1, y2 = map(F1, ('a', 'b', 'X1', 'X2', 'y1', 'y2'))
    sz, fir, t, n = z3.Ints('sz fir t n'); st.fact(And(sz >= 1, t >= 0, n >= 0))
    # the second block is the continuation of the first: input history as left by the contract of process (post 'input history'), same samples after
    st.fact(z3.ForAll([j0], Implies(j0 > -sz, X2(j0) == X1(n + j0))))
    # output history (post 'output history') before the block, induction hypothesis inside it
    st.fact(z3.ForAll([j0], Implies(And(j0 > -sz, j0 < t), y2(j0) == y1(n + j0))))
    eng.oblige(st, opaque(X2, a, b, sz, fir, y2, t) == opaque(X1, a, b, sz, fir, y1, n + t), 'lemma', 'induction step')

def filtfilt_spec(o, f, src, n):
    """odd reflection about the end samples, forward filter, backward filter, central part"""
    N = o.m_ord; E = 3 * N; ext = n + 2 * E
    zero = arrof(lambda j: RealVal(0))
    def x(t): return If(t < E, If(E - t < n, 2 * src(IntVal(0)) - src(E - t), 0), If(t < E + n, src(t - E), If(t - (E + n) + 1 < n, 2 * src(n - 1) - src((n - 2) - (t - E - n)), 0)))
    A1 = coeffs(f, arrof(lambda t: If(And(t >= 0, t < ext), x(t), 0)), zero)
    A2 = coeffs(f, arrof(lambda t: If(And(t >= 0, t < ext), YF.at(A1, ext - 1 - t), 0)), zero)
    return lambda k: YF.at(A2, ext - 1 - E - k)

@contract('FiltFilt::process(double const*, double*, int)', 'C07', weight=3)
def _(c):
    o = c.this(FF); src = c.arr(); dst = c.arr(); n = c.int(); f = o.obj('m_filter', F); N = o.m_ord
    c.requires(And(n >= 0, inv(c, f), N == f.m_order, n <= 2**29, N <= 2**26), 'class invariant'); c.valid(src, n); c.valid(dst, n)
    c.assigns(dst, filtfilt_spec(o, f, lambda k: src[k], n), 0, n)
    ba, bb = f.vec('m_bufa', DOUBLE), f.vec('m_bufb', DOUBLE)
    c.free_fields(f, ['m_offa', 'm_offb']); c.assigns(ba, None, 0, ba.size); c.assigns(bb, None, 0, bb.size)
    c.ensures('class invariant kept', lambda: inv(c, o.new.obj('m_filter', F)))

@contract('FiltFilt::FiltFilt(Filter::Parameters)', 'C07')
def _(c):
    o = c.this(FF, ctor=True); p = c.obj(PAR); a, b = p.vec('a', DOUBLE), p.vec('b', DOUBLE)
    c.requires(And(a.size <= 2**26, b.size <= 2**26)); c.throws(If(a.size == 0, b.size == 0, a.size != b.size))
    f = lambda: o.new.obj('m_filter', F); N = lambda m: f().vec(m, DOUBLE)
    c.ensures('class invariant', lambda: And(inv(c, f()), o.new.m_ord == f().m_order, f().m_order == b.size - 1, (f().m_fir != 0) == (a.size == 0)))
    c.ensures('coefficients', lambda: And(N('m_b').size == b.size, N('m_a').size == a.size, forall(0, b.size, lambda k: N('m_b')[k] == b[k]), forall(0, a.size, lambda k: N('m_a')[k] == a[k])))
