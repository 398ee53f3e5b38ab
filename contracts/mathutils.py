from qmv.dsl import *
from qmv.registry import contract
UNITS = ['maths/MathUtilities.cpp']
M = 'MathUtilities::'

def rabs(x): return If(x >= 0, x, -x)
def floorR(x): return z3.ToReal(z3.ToInt(x))

@contract(M + 'sum(double const*, int)', 'C04')
def _(c):
    src = c.arr(DOUBLE); n = c.int()
    c.requires(n >= 0); c.valid(src, n)
    c.result(Sum(0, n, lambda i: src[i]))

@contract(M + 'mean(double const*, int)', 'C04')
def _(c):
    src = c.arr(DOUBLE); n = c.int()
    c.requires(n >= 0); c.valid(src, n)
    c.result(If(n == 0, RealVal(0), Sum(0, n, lambda i: src[i]) / z3.ToReal(n)))

MEANV = M + 'mean(std::vector<double, std::allocator<double> > const&, int, int)'
@contract(MEANV, 'C04')
def _(c):
    src = c.vec(DOUBLE); start = c.int(); n = c.int()
    c.requires(And(n >= 0, start >= 0, start + n <= src.size), 'range inside the vector')
    c.result(If(n == 0, RealVal(0), Sum(0, n, lambda i: src[start + i]) / z3.ToReal(n)))

@contract(M + 'mod(double, double)', 'C04')
def _(c):
    x = c.real(); y = c.real()
    c.requires(y != 0)
    # x - result is an integer multiple of y, and the result lies in [0,y) (or (y,0])
    c.ensures('congruent', lambda: z3.Exists([z3.Int('q')], c.retv == x - y * z3.ToReal(z3.Int('q'))))
    c.result(x - y * floorR(x / y))

@contract(M + 'princarg(double)', 'C04')
def _(c):
    ang = c.real()
    pi = toz(3.14159265358979323846)
    # the representative of ang modulo 2 pi in (-pi, pi]
    c.result(ang - 2 * pi * z3.ToReal(-z3.ToInt(-(ang + pi) / (2 * pi)) - 1))
    c.ensures('in (-pi, pi]', lambda: And(c.retv > -pi, c.retv <= pi))

@contract(M + 'getAlphaNorm(double const*, int, int, double*)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int(); al = c.int(); out = c.cell(DOUBLE)
    c.requires(And(n >= 1, al >= 1)); c.valid(d, n)
    P = uf('pow', 2)
    s = Sum(0, n, lambda i: P(rabs(d[i]), z3.ToReal(al)))
    c.assigns(out, lambda k: P(s / z3.ToReal(n), 1 / z3.ToReal(al)), 0, 1)

@contract(M + 'getAlphaNorm(std::vector<double, std::allocator<double> > const&, int)', 'C04')
def _(c):
    d = c.vec(DOUBLE); al = c.int(); n = d.size
    c.requires(And(n >= 1, al >= 1))
    P = uf('pow', 2)
    c.result(P(Sum(0, n, lambda i: P(rabs(d[i]), z3.ToReal(al))) / z3.ToReal(n), 1 / z3.ToReal(al)))

@contract(M + 'round(double)', 'C04')
def _(c):
    x = c.real()
    c.result(If(x < 0, -floorR(-x + RealVal('1/2')), floorR(x + RealVal('1/2'))))
    c.ensures('nearest', lambda: rabs(c.retv - x) <= RealVal('1/2'))

@contract(M + 'getFrameMinMax(double const*, int, double*, double*)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int(); mn = c.cell(DOUBLE); mx = c.cell(DOUBLE)
    c.requires(n >= 0); c.valid(d, n)
    c.assigns(mn, None, 0, 1); c.assigns(mx, None, 0, 1)
    for nm, o, le in (('min', mn, lambda a, b: a <= b), ('max', mx, lambda a, b: a >= b)):
        c.ensures(nm + ' bound', lambda o=o, le=le: Implies(n > 0, forall(0, n, lambda i: le(o.new[0], d[i]))))
        c.ensures(nm + ' attained', lambda o=o: Implies(n > 0, z3.Exists([z3.Int('w')], And(z3.Int('w') >= 0, z3.Int('w') < n, o.new[0] == d[z3.Int('w')]))))
        c.ensures(nm + ' empty', lambda o=o: Implies(n == 0, o.new[0] == 0))

def maxspec(c, d, n, out):
    c.requires(n >= 1)
    nul = c.isnull(out)
    if not isinstance(out.p, PNull): c.assigns(out, None, 0, 1)
    r = lambda: c.retv
    c.ensures('index in range', lambda: And(r() >= 0, r() < n))
    c.ensures('maximum', lambda: forall(0, n, lambda i: d[i] <= d[r()]))
    c.ensures('first maximum', lambda: forall(0, r(), lambda i: d[i] < d[r()]))
    c.ensures('value', lambda: Implies(Not(nul), out.new[0] == d[r()]))

@contract(M + 'getMax(double*, int, double*)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int(); out = c.arr(DOUBLE, null=True); c.valid(out, If(c.isnull(out), 0, 1))
    c.valid(d, n)
    maxspec(c, d, n, out)

@contract(M + 'getMax(std::vector<double, std::allocator<double> > const&, double*)', 'C04')
def _(c):
    d = c.vec(DOUBLE); out = c.arr(DOUBLE, null=True); c.valid(out, If(c.isnull(out), 0, 1))
    maxspec(c, d, d.size, out)

@contract(M + 'circShift(double*, int, int)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int(); s = c.int()
    c.requires(And(n >= 1, s >= 0)); c.valid(d, n)
    c.assigns(d, lambda k: d[(k - s) % n], 0, n)
    c.hint_array(d, lambda it, k, e: If(And(k >= 0, k < n), e((k - it) % n), e(k)))

def normspec(c, d, n, t):
    S = Sum(0, n, lambda i: d[i])
    c.ensures('none', lambda: Implies(And(t != 1, t != 2), forall(0, n, lambda i: d.new[i] == d[i])))
    c.ensures('unit sum', lambda: Implies(t == 1, forall(0, n, lambda i: d.new[i] == If(S == 0, d[i], d[i] / S))))
    w = z3.Int('w')
    ismax = lambda m: And(m >= 0, forall(0, n, lambda i: rabs(d[i]) <= m), Or(m == 0, z3.Exists([w], And(w >= 0, w < n, rabs(d[w]) == m))))
    m = c.let('maxabs', R, ismax, 'a finite sequence has a largest absolute value (0 when empty)')
    c.ensures('unit max', lambda: Implies(t == 2, forall(0, n, lambda i: d.new[i] == If(m == 0, d[i], d[i] / m))))

@contract(M + 'normalise(double*, int, MathUtilities::NormaliseType)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int(); t = c.int()
    c.requires(n >= 0); c.valid(d, n)
    c.assigns(d, None, 0, n)
    normspec(c, d, n, t)

@contract(M + 'normalise(std::vector<double, std::allocator<double> >&, MathUtilities::NormaliseType)', 'C04')
def _(c):
    d = c.vec(DOUBLE); t = c.int()
    c.assigns(d, None, 0, d.size)
    normspec(c, d, d.size, t)

def lpn(d, p, n=None):
    P = uf('pow', 2)
    return P(Sum(0, d.size, lambda i: rabs(P(d[i], z3.ToReal(p)))), 1 / z3.ToReal(p))

@contract(M + 'getLpNorm(std::vector<double, std::allocator<double> > const&, int)', 'C04')
def _(c):
    d = c.vec(DOUBLE); p = c.int()
    c.requires(p != 0)
    c.result(lpn(d, p))

@contract(M + 'normaliseLp(std::vector<double, std::allocator<double> > const&, int, double)', 'C04')
def _(c):
    out = c.outvec(DOUBLE); d = c.vec(DOUBLE); p = c.int(); th = c.real()
    P = uf('pow', 2)
    n = d.size
    c.ensures('size', lambda: out.new.size == n)
    L = lpn(d, p)
    c.ensures('values', lambda: forall(0, n, lambda i: out.new[i] == If(p == 0, d[i], If(L < th, 1 / P(z3.ToReal(n), 1 / z3.ToReal(p)), d[i] / L))))

@contract(M + 'adaptiveThreshold(std::vector<double, std::allocator<double> >&)', 'C04')
def _(c):
    d = c.vec(DOUBLE); n = d.size
    def new(k):
        lo = If(k - 8 > 0, k - 8, 0); hi = If(k + 7 < n - 1, k + 7, n - 1)
        m = Sum(lo, hi + 1, lambda j: d[j]) / z3.ToReal(hi - lo + 1)
        return If(d[k] - m < 0, RealVal(0), d[k] - m)
    c.assigns(d, new, 0, n)

@contract(M + 'median(double const*, int)', 'C04')
def _(c):
    d = c.arr(DOUBLE); n = c.int()
    c.requires(n >= 0); c.valid(d, n)
    from qmv.lib import ordstat
    A = arrof(lambda j: If(And(j >= 0, j < n), d[j], 0))
    c.result(If(n == 0, RealVal(0), If(n % 2 == 0, (ordstat(n, A, n / 2) + ordstat(n, A, n / 2 - 1)) / 2, ordstat(n, A, n / 2))))

def ispow2(x): return Or(*[x == 2**k for k in range(31)])
@contract(M + 'isPowerOfTwo(int)', 'C04')
def _(c):
    x = c.int(); c.result(ispow2(x))
def npow(x):
    e = IntVal(2**30)
    for k in range(29, -1, -1): e = If(x <= 2**k, IntVal(2**k), e)
    return e
def ppow(x):
    e = IntVal(1)
    for k in range(1, 31): e = If(x >= 2**k, IntVal(2**k), e)
    return e
@contract(M + 'nextPowerOfTwo(int)', 'C04')
def _(c):
    x = c.int(); c.requires(x <= 2**30); c.result(npow(x)); c.unroll(32)
@contract(M + 'previousPowerOfTwo(int)', 'C04')
def _(c):
    x = c.int(); c.result(ppow(x)); c.unroll(32)
@contract(M + 'nearestPowerOfTwo(int)', 'C04')
def _(c):
    x = c.int(); c.requires(And(x <= 2**30, x >= -2**30))
    c.result(If(x - ppow(x) < npow(x) - x, ppow(x), npow(x)))

FACT = z3.Function('FACT', I, R)
@contract(M + 'gcd(int, int)', 'C04')
def _(c):
    a = c.int(); b = c.int()
    c.requires(And(a > 0, b > 0))
    G = z3.Function('GCD', I, I, I)
    c.result(G(a, b))
    # definition of gcd used as an axiom instance: Euclid
    c.assume_type(If(a % b == 0, G(a, b) == b, G(a, b) == G(b, a % b)))

FACT = RecFun('FACT', [I], [R], lambda a: [RealVal(1)], lambda a, t, s: [s[0] * z3.ToReal(t + 1)])
def fact(n): return FACT.at([IntVal(0)], n)[0]
@contract(M + 'factorial(int)', 'C04', 'C03')
def _(c):
    n = c.int(); c.requires(n <= 2**30); c.result(If(n < 0, RealVal(0), fact(n)))
    def closed(eng, fr, L, lvs, st0, it):
        return {lv.id: fact(it) for lv in lvs if lv.kind == 'phi' and lv.sort == R} if fr.depth == 0 else None
    c.hint(closed=closed)

@contract(M + 'compareInt(void const*, void const*)', 'C04')
def _(c):
    a, b = c.arr(I32), c.arr(I32); c.valid(a, 1); c.valid(b, 1)
    c.requires(And(a[0] >= -2**30, a[0] < 2**30, b[0] >= -2**30, b[0] < 2**30), 'no overflow')
    c.result(a[0] - b[0])
