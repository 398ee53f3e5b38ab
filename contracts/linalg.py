"""maths/Polyfit.h and maths/pca/pca.c"""
import os
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'units', 'polyfit.cpp'), 'maths/pca/pca.c']
VD = 'std::vector<double, std::allocator<double> >'; VVD = 'std::vector<%s, std::allocator<%s > >' % (VD, VD)
@contract('TPolyFit::Square(%s const&, %s const&, %s&, %s&, int, int)' % (VVD, VD, VVD, VD), 'C23')
def _(c):
    x = c.vec(VEC(DOUBLE)); y = c.vec(); a = c.vec(VEC(DOUBLE)); g = c.vec(); nr, nc = c.int(), c.int()
    c.requires(And(nr >= 1, nr <= 2**20, nc >= 0, nc <= 2**10, x.size == nr, y.size == nr, a.size == nc, g.size == nc), 'sizes')
    c.requires(forall(0, nr, lambda i: x[i].size == nc)); c.requires(forall(0, nc, lambda i: a[i].size == nc))
    dot = lambda k, l: Sum(0, nr, lambda i: x[i][l] * x[i][k])
    c.assigns(a); c.assigns(g, lambda k: Sum(0, nr, lambda i: y[i] * x[i][k]), 0, nc)
    c.ensures('normal equations', lambda: forall(0, nc, lambda k: forall(0, nc, lambda l: a.new[k][l] == dot(k, l))))
    c.ensures('shape kept', lambda: And(a.new.size == nc, forall(0, nc, lambda i: a.new[i].size == nc)))
@contract('covcol', 'C23')
def _(c):
    data = c.arr(PTR); n, m = c.int(), c.int(); sym = c.arr(PTR)
    c.requires(And(n >= 1, n <= 2**20, m >= 0, m <= 2**12)); c.valid(data, n); c.valid(sym, m)
    X = c.matrix(data, n, DOUBLE, m); S = c.matrix(sym, m, DOUBLE, m)
    mean = lambda j: Sum(0, n, lambda i: X[i][j]) / z3.ToReal(n)
    c.assigns(X, lambda i, j: X[i][j] - mean(j), n=(n, m))
    # centred scatter matrix
    c.assigns(S, lambda a, b: Sum(0, n, lambda i: (X[i][a] - mean(a)) * (X[i][b] - mean(b))), n=(m, m))
# values of the reduction are not specified: only which memory it writes; the directions left in the matrix are named DIRECTION (one reduction per projection)
DIRN = z3.Function('DIRECTION', I, I, R)
WHYQ = 'iterative eigen-reduction: that its columns are orthonormal directions of decreasing variance is executed (C23), not proved'
@contract('tred2', trusted=WHYQ)
def _(c):
    z = c.arr(PTR); m = c.int(); d, e = c.arr(), c.arr(); c.requires(And(m >= 0, m <= 2**12)); c.valid(z, m); c.valid(d, m); c.valid(e, m)
    Z = c.matrix(z, m, DOUBLE, m); c.assigns(Z, None, n=(m, m)); c.assigns(d, None, 0, m); c.assigns(e, None, 0, m)
@contract('tqli', trusted=WHYQ)
def _(c):
    d, e = c.arr(), c.arr(); m = c.int(); z = c.arr(PTR); c.requires(And(m >= 0, m <= 2**12)); c.valid(z, m); c.valid(d, m); c.valid(e, m)
    Z = c.matrix(z, m, DOUBLE, m); c.assigns(Z, None, n=(m, m)); c.assigns(d, None, 0, m); c.assigns(e, None, 0, m)
@contract('sort_eigen', trusted=WHYQ, optional=True)
def _(c):
    d = c.arr(); m = c.int(); z = c.arr(PTR); c.requires(And(m >= 0, m <= 2**12)); c.valid(z, m); c.valid(d, m)
    Z = c.matrix(z, m, DOUBLE, m); c.assigns(Z, lambda i, j: DIRN(i, j), n=(m, m)); c.assigns(d, None, 0, m)
@contract('pca_project', 'C23', weight=2)
def _(c):
    data = c.arr(PTR); n, m, k = c.int(), c.int(), c.int()
    c.requires(And(n >= 1, n <= 2**20, m >= 1, m <= 2**12, k >= 0, k <= m)); c.valid(data, n)
    X = c.matrix(data, n, DOUBLE, m)
    mean = lambda j: Sum(0, n, lambda i: X[i][j]) / z3.ToReal(n)
    c.assigns(X, lambda i, j: If(j < k, Sum(0, m, lambda l: (X[i][l] - mean(l)) * DIRN(l, m - j - 1)), X[i][j] - mean(j)), n=(n, m))
