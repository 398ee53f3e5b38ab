import os
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
H = os.path.dirname(os.path.abspath(__file__))
UNITS = [H + '/tu/median.cpp']
M = 'class.MedianFilter'
CAP = 2**28
PI = z3.Function('PERM', I, I); RHO = z3.Function('PERMINV', I, I)    # arbitrary permutation: position in the sorted array of every frame element

def parts(c, o):
    n = o.m_size; fr = o.arr('m_frame', DOUBLE, n); so = o.arr('m_sorted', DOUBLE, n)
    p, t = o.field('m_sortend'); end = Ptr(so.p.r, so.p.p[:-1] + (('d', simplify(so.p.p[-1][1] + n - 1)),)) if isinstance(so.p, Ptr) else None
    if c.mode == 'verify':
        if (p.r, p.key()) not in c.pre.mem: c.pre.mem[(p.r, p.key())] = Content(end, (), p.key().count('*'), True)
    else:
        c.requires(BoolVal(same_ptr(o.rawptr('m_sortend'), end)), 'end of the sorted array')
    return n, fr, so
def asc(a, n):
    i, j = z3.Ints('asc!i asc!j')
    return z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), a(i) <= a(j)))
def lower(c, name, a, n, v):
    """the first position in [0,n] whose element is not below v"""
    return c.let(name, I, lambda p: And(p >= 0, p <= n, forall(0, p, lambda j: a(j) < v), forall(p, n, lambda j: a(j) >= v)), 'a sorted range has a first position not below a value')
def idx(n, p): return If(toInt(z3.ToReal(n) * p / 100) >= n, n - 1, If(toInt(z3.ToReal(n) * p / 100) < 0, 0, toInt(z3.ToReal(n) * p / 100)))
def toInt(x): return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def pre(c, n): c.requires(And(n >= 1, n <= CAP))

@contract('MedianFilter<double>::MedianFilter(int, float)', 'C05')
def _(c):
    o = c.this(M, ctor=True); n = c.int(); p = c.real(); pre(c, n); c.requires(And(p >= -1000, p <= 1000), 'percentile'); c.requires(n <= 2**26)
    c.ensures('size and rank', lambda: And(o.new.m_size == n, o.new.m_index == idx(n, p)))
    c.ensures('zero history', lambda: And(forall(0, n, lambda i: o.new.arr('m_frame', DOUBLE, n)[i] == 0), forall(0, n, lambda i: o.new.arr('m_sorted', DOUBLE, n)[i] == 0)))
@contract('MedianFilter<double>::setPercentile(float)', 'C05')
def _(c):
    o = c.this(M); p = c.real(); n = o.m_size; pre(c, n); c.requires(And(p >= -1000, p <= 1000, n <= 2**26), 'percentile')
    c.sets(o, 'm_index', idx(n, p))
@contract('MedianFilter<double>::getAt(float)', 'C05')
def _(c):
    o = c.this(M); p = c.real(); n, fr, so = parts(c, o); pre(c, n); c.requires(And(p >= -1000, p <= 1000, n <= 2**26), 'percentile')
    c.result(so[idx(n, p)])
@contract('MedianFilter<double>::get() const', 'C05')
def _(c):
    o = c.this(M); n, fr, so = parts(c, o); pre(c, n); c.requires(And(o.m_index >= 0, o.m_index < n), 'rank in range')
    c.result(so[o.m_index])
@contract('MedianFilter<double>::reset()', 'C05')
def _(c):
    o = c.this(M); n, fr, so = parts(c, o); pre(c, n)
    c.assigns(fr, lambda k: RealVal(0), 0, n); c.assigns(so, lambda k: RealVal(0), 0, n)

def dropped(c, s, n, v, name='p'):
    p = lower(c, name, s, n, v)
    return p, (lambda j: If(j < n - 1, If(j < p, s(j), s(j + 1)), RealVal(0)))
def inserted(c, d, n, v, name='q'):
    q = lower(c, name, d, n - 1, v)
    return q, (lambda j: If(j < q, d(j), If(j == q, v, d(j - 1))))
@contract('MedianFilter<double>::drop(double)', 'C05', optional=True)
def _(c):
    o = c.this(M); v = c.real(); n, fr, so = parts(c, o); pre(c, n); w = z3.Int('w!')
    c.requires(And(asc(lambda i: so[i], n), z3.Exists([w], And(w >= 0, w < n, so[w] == v))), 'sorted, and the value occurs')
    p, D = dropped(c, lambda i: so[i], n, v)
    c.assigns(so, D, 0, n)
@contract('MedianFilter<double>::put(double)', 'C05', optional=True)
def _(c):
    o = c.this(M); v = c.real(); n, fr, so = parts(c, o); pre(c, n)
    c.requires(asc(lambda i: so[i], n - 1), 'sorted')
    q, S = inserted(c, lambda i: so[i], n, v)
    c.assigns(so, S, 0, n)
@contract('MedianFilter<double>::push(double)', 'C05')
def _(c):
    o = c.this(M); v = c.real(); n, fr, so = parts(c, o); pre(c, n); w = z3.Int('w!')
    c.requires(And(asc(lambda i: so[i], n), z3.Exists([w], And(w >= 0, w < n, so[w] == fr[0]))), 'class invariant: sorted permutation of the history')
    p, D = dropped(c, lambda i: so[i], n, fr[0])
    q, S = inserted(c, D, n, v)
    c.assigns(fr, lambda k: If(k < n - 1, fr[k + 1], v), 0, n)
    c.assigns(so, S, 0, n)
    c.ensures('sorted', lambda: asc(lambda i: so.new[i], n))

@lemma('pushing keeps the sorted array a permutation of the last n values', 'C05')
def _(eng):
    from qmv.core import State
    st = State(); F = lambda n: z3.Function(n, I, R); s, f = F('s'), F('f'); n, p, q, i0, j0 = z3.Ints('n p q i0 j0'); v = z3.Real('v')
    i = z3.Int('i')
    inr = lambda x: And(x >= 0, x < n)
    st.fact(n >= 1)
    st.fact(z3.ForAll([i], Implies(inr(i), And(inr(PI(i)), RHO(PI(i)) == i, s(PI(i)) == f(i)))))
    st.fact(z3.ForAll([i], Implies(inr(i), And(inr(RHO(i)), PI(RHO(i)) == i))))
    # p, q as in the contract of push; s(p) is the dropped value
    st.fact(And(inr(p), s(p) == f(0), q >= 0, q <= n - 1))
    # exchange the roles of p and PI(0) so that the dropped element is the one at p
    a = PI(0); b = RHO(p)
    pi1 = lambda x: If(x == 0, p, If(x == b, a, PI(x)))
    rho1 = lambda y: If(y == p, 0, If(y == a, b, RHO(y)))
    pi2 = lambda x: If(x == n - 1, q, (lambda y: (lambda z: If(z < q, z, z + 1))(If(y < p, y, y - 1)))(pi1(x + 1)))
    rho2 = lambda y: If(y == q, n - 1, (lambda z: rho1(If(z < p, z, z + 1)) - 1)(If(y < q, y, y - 1)))
    D = lambda j: If(j < n - 1, If(j < p, s(j), s(j + 1)), RealVal(0))
    S = lambda j: If(j < q, D(j), If(j == q, v, D(j - 1)))
    f2 = lambda k: If(k < n - 1, f(k + 1), v)
    st.fact(inr(i0))
    # instances of the hypotheses at the positions used
    for x in (IntVal(0), i0, i0 + 1, p, PI(0), RHO(p), PI(i0 + 1)):
        st.fact(Implies(inr(x), And(inr(PI(x)), RHO(PI(x)) == x, s(PI(x)) == f(x)))); st.fact(Implies(inr(x), And(inr(RHO(x)), PI(RHO(x)) == x)))
    eng.oblige(st, inr(pi2(i0)), 'lemma', 'positions in range')
    eng.oblige(st, S(pi2(i0)) == f2(i0), 'lemma', 'every value of the new history is at its position')
    eng.oblige(st, rho2(pi2(i0)) == i0, 'lemma', 'different history entries have different positions')
