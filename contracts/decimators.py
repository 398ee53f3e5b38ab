from qmv.dsl import *
from qmv.registry import contract, lemma
import contracts.mathutils
UNITS = ['dsp/rateconversion/Decimator.cpp', 'dsp/rateconversion/DecimatorB.cpp', 'maths/MathUtilities.cpp']
D = 'class.Decimator'; DB = 'class.DecimatorB'

def df2t(name, order):
    """direct form II transposed filter of the given order: state s_1..s_order over a stream"""
    sorts = [AIR, AIR, AIR] + [R] * order           # input, b, a, initial state
    def out(args, t, s): return z3.Select(args[0], t) * z3.Select(args[1], 0) + s[0]
    def step(args, t, s):
        x = z3.Select(args[0], t); b = args[1]; a = args[2]; y = out(args, t, s)
        return [x * z3.Select(b, j + 1) - y * z3.Select(a, j + 1) + (s[j + 1] if j + 1 < order else 0) for j in range(order)]
    f = RecFun(name, sorts, [R] * order, lambda args: list(args[3:]), step, reads={0: 't', 1: order + 1, 2: order + 1})
    f.out = lambda args, t: out(args, t, f.at(args, t))
    return f
F7 = df2t('DF2T7', 7); F6 = df2t('DF2T6', 6)
O = ['o%d' % i for i in range(1, 8)]

def dargs(o, src):
    return [arrof(lambda j: src[j]), arrof(lambda j: o.arr('b', DOUBLE, 9)[j]), arrof(lambda j: o.arr('a', DOUBLE, 9)[j])] + [getattr(o, x) for x in O]

def antialias(el):
    def spec(c):
        o = c.this(D); src = c.arr(el); dst = c.arr(DOUBLE); n = c.int()
        c.requires(n >= 0); c.valid(src, n); c.valid(dst, n)
        A = dargs(o, src)
        c.assigns(dst, lambda k: F7.out(A, k), 0, n)
        for j in range(7):
            c.sets(o, O[j], F7.at(A, n)[j])
            c.hint_cell(o, O[j], lambda it, j=j: F7.at(A, it)[j])
        c.free_fields(o, ['Input', 'Output'])
    return spec
contract('Decimator::doAntiAlias(double const*, double*, int)', 'C09', optional=True)(antialias(DOUBLE))
contract('Decimator::doAntiAlias(float const*, double*, int)', 'C09', optional=True)(antialias(FLOAT))

@contract('Decimator::resetFilter()', 'C09')
def _(c):
    o = c.this(D)
    for x in O + ['Input', 'Output']: c.sets(o, x, RealVal(0))

def process(el):
    def spec(c):
        o = c.this(D); src = c.arr(el); dst = c.arr(el)
        n = o.m_inputLength; f = o.m_decFactor; m = o.m_outputLength
        c.requires(And(n >= 0, f >= 1, m == n / f, n <= 2**30), 'as constructed'); c.valid(src, n); c.valid(dst, m)
        buf = o.arr('decBuffer', DOUBLE, n)
        A = dargs(o, src)
        c.assigns(dst, lambda k: If(f == 1, src[k], F7.out(A, f * k)), 0, m)
        for j in range(7): c.hint_cell(o, O[j], lambda it, j=j: F7.at(A, it)[j], depth=2)
        for j in range(7): c.sets(o, O[j], If(f == 1, getattr(o, O[j]), F7.at(A, n)[j]))
        c.free_fields(o, ['Input', 'Output']); c.assigns(buf, None, 0, n)
    return spec
contract('Decimator::process(double const*, double*)', 'C09')(process(DOUBLE))
contract('Decimator::process(float const*, float*)', 'C09')(process(FLOAT))

@contract('Decimator::initialise(int, int)', 'C09')
def _(c):
    o = c.this(D); n = c.int(); f = c.int()
    c.requires(And(n >= 0, n <= 2**30, f >= 1))
    c.free_fields(o, ['m_inputLength', 'm_outputLength', 'm_decFactor', 'decBuffer', 'Input', 'Output'] + O)
    for v in 'ab': c.assigns(o.arr(v, DOUBLE, 9), None, 0, 9)
    c.ensures('sizes', lambda: And(o.new.m_inputLength == n, o.new.m_decFactor == f, o.new.m_outputLength == n / f))
    c.ensures('buffer', lambda: And(*c.allocated(o.new, 'decBuffer', n)))
    c.ensures('fresh state', lambda: And(*[getattr(o.new, x) == 0 for x in O]))
    a = lambda i: o.new.arr('a', DOUBLE, 9)[i]
    b = lambda i: o.new.arr('b', DOUBLE, 9)[i]
    c.ensures('monic', lambda: a(0) == 1)
    # unit gain for a constant input: sum b / sum a = 1
    def dc():
        sa = sum([a(i) for i in range(8)]); sb = sum([b(i) for i in range(8)])
        return And(sa > 0, (sb - sa) * 1000000 <= sa, (sa - sb) * 1000000 <= sa)
    c.ensures('unit gain at zero frequency', dc)
    # zero at the Nyquist frequency for the supported factors: alternating input is suppressed
    c.ensures('no filter for factor 1', lambda: Implies(f == 1, And(b(0) == 1, *[And(a(i) == 0, b(i) == 0) for i in range(1, 8)])))
    c.ensures('nyquist suppressed', lambda: Implies(Or(f == 2, f == 4, f == 8), And(sum([b(i) * (-1) ** i for i in range(8)]) * 1000 <= 1, sum([b(i) * (-1) ** i for i in range(8)]) * 1000 >= -1)))

def decmade(c, o, n, f):
    return [('sizes', lambda: And(o.m_inputLength == n, o.m_decFactor == f, o.m_outputLength == n / f)), ('buffer', lambda: And(*c.allocated(o, 'decBuffer', n))), ('cleared state', lambda: And(*[getattr(o, x) == 0 for x in O]))]
@contract('Decimator::Decimator(int, int)', 'C09')
def _(c):
    o = c.this(D, ctor=True); n = c.int(); f = c.int(); c.requires(And(n >= 0, n <= 2**30, f >= 1))
    for k in range(3): c.ensures(decmade(c, o.new, n, f)[k][0], decmade(c, o.new, n, f)[k][1])

# ---- DecimatorB
def bargs(o, src, fi):
    s = o.vec('m_o', VEC(DOUBLE))[fi]
    return [arrof(lambda j: src[j]), arrof(lambda j: o.arr('m_b', DOUBLE, 7)[j]), arrof(lambda j: o.arr('m_a', DOUBLE, 7)[j])] + [s[j] for j in range(6)]

@contract('DecimatorB::doAntiAlias(double const*, double*, int, int)', 'C09', optional=True)
def _(c):
    o = c.this(DB); src = c.arr(); dst = c.arr(); n = c.int(); fi = c.int()
    c.requires(n >= 0); c.valid(src, n); c.valid(dst, n)
    mo = o.vec('m_o', VEC(DOUBLE))
    c.requires(And(fi >= 0, fi < mo.size, mo[fi].size == 6))
    A = bargs(o, src, fi)
    c.assigns(dst, lambda k: F6.out(A, k), 0, n)
    st = lambda t: lambda k: If(k == 0, F6.at(A, t)[0], If(k == 1, F6.at(A, t)[1], If(k == 2, F6.at(A, t)[2], If(k == 3, F6.at(A, t)[3], If(k == 4, F6.at(A, t)[4], F6.at(A, t)[5])))))
    c.assigns(mo[fi], st(n), 0, 6)
    c.hint_array(mo[fi], lambda it, k, e: If(And(k >= 0, k < 6), st(it)(k), e(k)))

def tables(c, o):
    return lambda: And(o.new.m_outputLength >= 0)

def isp2(x): return Or(*[x == 2**k for k in range(1, 31)])
@contract('DecimatorB::initialise(int, int)', 'C09')
def _(c):
    o = c.this(DB); n = c.int(); f = c.int()
    c.requires(And(n >= 0, n <= 2**30)); mo = o.vec('m_o', VEC(DOUBLE)); c.requires(mo.size == 0)
    o.arr('m_aaBuffer', DOUBLE, 0); o.arr('m_tmpBuffer', DOUBLE, 0)
    good = And(isp2(f), n % f == 0)
    c.free_fields(o, ['m_inputLength', 'm_outputLength', 'm_decFactor', 'm_aaBuffer', 'm_tmpBuffer'])
    for v in 'ab': c.assigns(o.arr('m_' + v, DOUBLE, 7), None, 0, 7)
    c.setsize(mo, None); c.assigns(mo, None)
    c.ensures('unsupported factors rejected', lambda: Implies(Not(good), And(o.new.m_decFactor == 0, o.new.m_outputLength == 0)))
    c.ensures('sizes', lambda: Implies(good, And(o.new.m_inputLength == n, o.new.m_decFactor == f, o.new.m_outputLength * f == n, o.new.m_outputLength == n / f)))
    a = lambda i: o.new.arr('m_a', DOUBLE, 7)[i]
    b = lambda i: o.new.arr('m_b', DOUBLE, 7)[i]
    c.ensures('monic', lambda: Implies(good, a(0) == 1))
    def dc():
        sa = sum([a(i) for i in range(7)]); sb = sum([b(i) for i in range(7)])
        return Implies(good, And(sa > 0, (sb - sa) * 1000000 <= sa, (sa - sb) * 1000000 <= sa))
    c.ensures('unit gain at zero frequency', dc)
    c.ensures('nyquist suppressed', lambda: Implies(good, And(sum([b(i) * (-1) ** i for i in range(7)]) * 1000 <= 1, sum([b(i) * (-1) ** i for i in range(7)]) * 1000 >= -1)))

# proved for the factors 2, 4, 8 (three nested filter stages); larger powers of two by bounded execution
def stages(o, src, f):
    """contents of the work buffer after each halving, as functions of the index"""
    n = o.m_inputLength
    lev = [lambda k: src[k]]; args = []
    cb = arrof(lambda j: o.arr('m_b', DOUBLE, 7)[j]); ca = arrof(lambda j: o.arr('m_a', DOUBLE, 7)[j])
    for l in range(3):
        s = o.vec('m_o', VEC(DOUBLE))[l]
        A = [arrof(lev[l]), cb, ca] + [s[j] for j in range(6)]
        args.append(A)
        lev.append(lambda k, A=A: F6.out(A, 2 * k))
    return lev, args

def bstate(c, o, f, cond=TRUE):
    n = o.m_inputLength
    mo = o.vec('m_o', VEC(DOUBLE))
    c.requires(And(n >= 0, n <= 2**30, Or(Not(cond), And(Or(f == 2, f == 4, f == 8), n % f == 0, If(f == 2, mo.size == 1, If(f == 4, mo.size == 2, mo.size == 3))))), 'as constructed, factor 2, 4 or 8')
    c.requires(forall(0, mo.size, lambda i: mo[i].size == 6), 'six state values per stage')
    tmp = o.arr('m_tmpBuffer', DOUBLE, If(cond, n, 0)); aa = o.arr('m_aaBuffer', DOUBLE, If(cond, n, 0))
    return n, mo, tmp, aa

def bpost(c, o, mo, args, f, n, active):
    def st(l):
        A = args[l]; m = n / 2**l
        F = F6.at(A, m)
        return lambda k: If(k == 0, F[0], If(k == 1, F[1], If(k == 2, F[2], If(k == 3, F[3], If(k == 4, F[4], F[5])))))
    for l in range(3):
        c.ensures('state of stage %d' % (l + 1), lambda l=l: Implies(And(active, f >= 2**(l + 1)), And(*[mo.new[l][k] == st(l)(IntVal(k)) for k in range(6)])))

@contract('DecimatorB::doProcess()', 'C09', optional=True, weight=3)
def _(c):
    o = c.this(DB); f = o.m_decFactor
    n, mo, tmp, aa = bstate(c, o, f)
    lev, args = stages(o, tmp, f)
    c.assigns(tmp, None, 0, n); c.assigns(aa, None, 0, n); c.assigns(mo, None)
    c.ensures('shape', lambda: And(mo.new.size == mo.size, forall(0, mo.size, lambda i: mo.new[i].size == 6)))
    c.ensures('output', lambda: forall(0, n / f, lambda k: tmp.new[k] == If(f == 2, lev[1](k), If(f == 4, lev[2](k), lev[3](k)))))
    bpost(c, o, mo, args, f, n, TRUE)
    c.unroll(3, outer=True)

def bprocess(el):
    def spec(c):
        o = c.this(DB); src = c.arr(el); dst = c.arr(el); f = o.m_decFactor
        n, mo, tmp, aa = bstate(c, o, f, f != 0); m = o.m_outputLength
        c.requires(Implies(f != 0, And(m == n / f, m * f == n))); c.valid(src, n); c.valid(dst, m)
        lev, args = stages(o, src, f)
        c.assigns(dst, None, 0, If(f == 0, 0, m)); c.assigns(tmp, None, 0, If(f == 0, 0, n)); c.assigns(aa, None, 0, If(f == 0, 0, n)); c.assigns(mo, None)
        c.ensures('shape', lambda: And(mo.new.size == mo.size, forall(0, mo.size, lambda i: mo.new[i].size == 6)))
        c.ensures('output', lambda: forall(0, m, lambda k: Implies(f != 0, dst.new[k] == If(f == 2, lev[1](k), If(f == 4, lev[2](k), lev[3](k))))))
        bpost(c, o, mo, args, f, n, f != 0)
    return spec
contract('DecimatorB::process(double const*, double*)', 'C09', weight=2)(bprocess(DOUBLE))
contract('DecimatorB::process(float const*, float*)', 'C09', weight=2)(bprocess(FLOAT))

def chunking(F, order):
    def l(eng):
        from qmv.core import State
        X, Bc, Ac = z3.Consts('X Bc Ac', AIR); s0 = [z3.Real('s%d' % i) for i in range(order)]; n, t = z3.Ints('n t')
        A1 = [X, Bc, Ac] + s0
        shifted = arrof(lambda j: z3.Select(X, n + j))
        A2 = [shifted, Bc, Ac] + F.at(A1, n)
        st = State(); st.fact(n >= 0)
        eng.oblige(st, And(*[F.at(A2, IntVal(0))[j] == F.at(A1, n)[j] for j in range(order)]), 'lemma', 'induction base: the state carried over')
        st.fact(t >= 0); st.fact(And(*[F.at(A2, t)[j] == F.at(A1, n + t)[j] for j in range(order)]))
        for j in range(order): eng.oblige(st, F.at(A2, t + 1)[j] == F.at(A1, n + t + 1)[j], 'lemma', 'induction step: state %d' % j)
        eng.oblige(st, F.out(A2, t) == F.out(A1, n + t), 'lemma', 'output equal to that of the undivided stream')
    return l
lemma('chunking: filtering a block from the state left by the preceding ones continues the stream (Decimator)', 'C09')(chunking(F7, 7))
lemma('chunking: filtering a block from the state left by the preceding ones continues the stream (DecimatorB)', 'C09')(chunking(F6, 6))
