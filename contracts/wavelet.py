"""dsp/wavelet/Wavelet.cpp: the coefficient tables, one contract per wavelet"""
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = ['dsp/wavelet/Wavelet.cpp']
W = 'Wavelet::createDecompositionFilters(Wavelet::Type, std::vector<double, std::allocator<double> >&, std::vector<double, std::allocator<double> >&)'
# type number, name, length, orthonormal, vanishing moments of the wavelet, tolerance of the table
T = [('Haar', 2, True, 1)] + [('Daubechies %d' % n, 2 * n, True, n) for n in list(range(2, 11)) + [20, 40]] + \
    [('Symlet %d' % n, 2 * n, True, n) for n in list(range(2, 11)) + [20, 30]] + [('Coiflet %d' % n, 6 * n, True, 2 * n) for n in range(1, 6)] + \
    [('Biorthogonal 1.3', 6, False, 1), ('Biorthogonal 1.5', 10, False, 1), ('Biorthogonal 2.2', 6, False, 2), ('Biorthogonal 2.4', 10, False, 2), ('Biorthogonal 2.6', 14, False, 2), ('Biorthogonal 2.8', 18, False, 2),
     ('Biorthogonal 3.1', 4, False, 3), ('Biorthogonal 3.3', 8, False, 3), ('Biorthogonal 3.5', 12, False, 3), ('Biorthogonal 3.7', 16, False, 3), ('Biorthogonal 3.9', 20, False, 3),
     ('Biorthogonal 4.4', 10, False, 4), ('Biorthogonal 5.5', 12, False, 5), ('Biorthogonal 6.8', 18, False, 6), ('Meyer', 102, True, 1)]
# precision of each published table (2e-13 where not listed): about twice the residual of its identities
TOL = {'Daubechies 3': '1e-11', 'Daubechies 5': '4e-12', 'Daubechies 7': '3e-12', 'Daubechies 8': '5e-12', 'Daubechies 4': '2e-12', 'Daubechies 6': '2e-12', 'Daubechies 2': '2e-12', 'Daubechies 9': '6e-11', 'Daubechies 10': '6e-12', 'Daubechies 20': '2e-11', 'Daubechies 40': '2e-05', 'Symlet 2': '2e-12', 'Symlet 3': '1e-11', 'Symlet 4': '3e-12', 'Symlet 5': '7e-12', 'Symlet 6': '6e-12', 'Symlet 7': '7e-12', 'Symlet 8': '5e-12', 'Symlet 20': '2e-11', 'Symlet 30': '2e-08', 'Coiflet 1': '2e-12', 'Coiflet 2': '2e-11', 'Coiflet 3': '6e-12', 'Coiflet 4': '4e-11', 'Coiflet 5': '8e-09', 'Biorthogonal 4.4': '3e-12', 'Biorthogonal 5.5': '2e-12', 'Biorthogonal 6.8': '5e-13', 'Meyer': '5e-06'}
SQRT2 = z3.RealVal('1.4142135623730951')
def daubechies(N):
    """scaling filter with N vanishing moments and minimal phase, by spectral factorisation (independent of the tables)"""
    import mpmath as mp
    mp.mp.dps = 120
    zs = []
    for y in mp.polyroots([mp.binomial(N - 1 + k, k) for k in range(N)][::-1], maxsteps=2000, extraprec=400):
        b = 1 - 2 * y; s = mp.sqrt(b * b - 1); zs.append(b + s if abs(b + s) < 1 else b - s)
    poly = [mp.mpc(1)]
    for f in [1] * N + [-z for z in zs]: poly = [x + y * f for x, y in zip(poly + [0], [0] + poly)]
    tot = sum(mp.re(x) for x in poly)
    return [mp.nstr(mp.re(x) * mp.sqrt(2) / tot, 25, min_fixed=-mp.inf, max_fixed=mp.inf) for x in poly]
def spec(c, ty, name, L, ortho, vm):
    tol = z3.simplify(z3.RealVal('%.20f' % float(TOL.get(name, '2e-13'))))
    near = lambda a, b: z3.simplify(And(a - b <= tol, b - a <= tol))
    t = c.int(); lo, hi = c.vec(), c.vec()
    c.requires(t == ty)
    for v in (lo, hi): c.setsize(v, IntVal(L)); c.assigns(v)
    a = lambda: [z3.simplify(lo.new[k]) for k in range(L)]
    b = lambda: [z3.simplify(hi.new[k]) for k in range(L)]
    tot = lambda xs: z3.Sum(*xs) if len(xs) > 1 else (xs + [RealVal(0)])[0]
    c.ensures('low-pass sums to sqrt(2)', lambda: near(tot(a()), SQRT2))
    c.ensures('high-pass sums to zero', lambda: near(tot(b()), 0))
    sg = lambda k: -1 if k % 2 == 0 else 1
    if name.startswith('Daubechies'):
        ref = daubechies(vm); rt = tol
        c.ensures('the Daubechies filter', lambda: And(*[z3.simplify(And(x - z3.RealVal(r) <= rt, z3.RealVal(r) - x <= rt)) for x, r in zip(a()[::-1], ref)]))
    if name.startswith('Symlet') and vm >= 4:
        # same magnitude response as Daubechies (moments and orthogonality below), nearly symmetric
        c.ensures('nearly symmetric', lambda: z3.simplify(And(tot([k * x * x for k, x in enumerate(a())]) <= z3.Q(62 * (L - 1), 100), tot([k * x * x for k, x in enumerate(a())]) >= z3.Q(38 * (L - 1), 100))))
    if ortho:
        c.ensures('unit energy', lambda: near(tot([x * x for x in a()]), 1))
        c.ensures('orthogonal to its even shifts', lambda: And(*[near(tot([a_[k] * a_[k + 2 * s] for k in range(L - 2 * s)]), 0) for a_ in [a()] for s in range(1, L // 2)]))
        c.ensures('high-pass mirrors low-pass', lambda: And(*[b_[k] == sg(k) * a_[L - 1 - k] for a_, b_ in [(a(), b())] for k in range(L)]))
    else:
        # with the dual filter given by the high-pass one
        c.ensures('biorthogonal', lambda: And(*[near(tot([a_[k] * sg(L - 1 - k - 2 * s) * b_[L - 1 - k - 2 * s] for k in range(L) if 0 <= L - 1 - k - 2 * s < L]), 1 if s == 0 else 0) for a_, b_ in [(a(), b())] for s in range(-L // 2, L // 2 + 1)]))
    if not ortho or name == 'Meyer':
        # linear phase: each filter is symmetric or antisymmetric about the middle of its support
        def mirror(v):
            nz = [k for k in range(L) if not z3.is_true(z3.simplify(v[k] == 0))]; i, j = nz[0], nz[-1]
            return z3.Or(And(*[near(v[i + k], v[j - k]) for k in range(j - i + 1)]), And(*[near(v[i + k], -v[j - k]) for k in range(j - i + 1)]))
        c.ensures('linear phase', lambda: And(mirror(a()), mirror(b())))
    c.ensures('vanishing moments', lambda: And(*[near(tot([z3.Q((2 * k - L + 1) ** p, L ** p) * b_[k] for k in range(L)]), 0) for b_ in [b()] for p in range(1, vm)]))
for ty, (name, L, ortho, vm) in enumerate(T):
    contract(W, 'C24', case=name)(lambda c, ty=ty, name=name, L=L, ortho=ortho, vm=vm: spec(c, ty, name, L, ortho, vm))
