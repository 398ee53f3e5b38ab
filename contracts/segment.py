"""dsp/segmentation and hmm"""
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.mathutils import *
UNITS = ['dsp/segmentation/ClusterMeltSegmenter.cpp', 'dsp/segmentation/cluster_segmenter.c', 'dsp/segmentation/cluster_melt.c', 'hmm/hmm.c', 'ext/cblas/src/cblas_ddot.c', 'ext/cblas/src/ddot.c', 'ext/cblas/src/cblas_dgemm.c', 'ext/cblas/src/dgemm.c', 'maths/pca/pca.c']
from contracts import linalg
CM = 'class.ClusterMeltSegmenter'; SEG = 'class.Segment'
@contract('ClusterMeltSegmenter::makeSegmentation(int*, int)', 'C19')
def _(c):
    o = c.this(CM); q = c.arr(I32); n = c.int()
    c.virtual(o, (0, 0)); base = ObjV(c, Ptr(o.p.r, o.p.p + (0,)), 'class.Segmenter')
    c.requires(And(n >= 1, n <= 2**20)); c.valid(q, n)
    s = base.obj('segmentation', 'class.Segmentation'); v = s.vec('segments', SEG)
    hop = If(o.hopSize * z3.ToReal(base.samplerate) + fpval(0.001) >= 0, z3.ToInt(o.hopSize * z3.ToReal(base.samplerate) + fpval(0.001)), IntVal(0))
    c.requires(And(base.samplerate >= 1, base.samplerate <= 2**20, o.hopSize > 0, hop >= 1, hop * n <= 2**31 - 1, hop <= 2**31 - 1), 'positions representable')
    c.sets(s, 'nsegtypes', o.nclusters); c.sets(s, 'samplerate', base.samplerate); c.free(v)
    N = lambda: v.new.size
    st, en, ty = (v.data.f(x) for x in ('start', 'end', 'type'))
    c.ensures('covers the frames', lambda: And(N() >= 1, st.new[0] == 0, en.new[N() - 1] == n * hop))
    c.ensures('contiguous', lambda: forall(1, N(), lambda i: And(st.new[i] == en.new[i - 1], ty.new[i] != ty.new[i - 1])))
    c.ensures('not empty', lambda: forall(0, N(), lambda i: st.new[i] < en.new[i]))
    f = z3.Int('fr!')
    def typed(s_, e_, t_): return z3.ForAll([f], Implies(And(f >= 0, f < n, s_ <= f * hop, f * hop < e_), q[f] == t_))
    c.ensures('types of the frames', lambda: forall(0, N(), lambda i: typed(st.new[i], en.new[i], ty.new[i])))
    def inv(loc, it):
        g = loc.arr('segment', SEG); N = v.loop.size; s_, t_ = g.f('start')[0], g.f('type')[0]; S, E, T = st.loop, en.loop, ty.loop
        return And(N >= 0, N <= it, s_ == If(N == 0, 0, E[N - 1]), s_ <= it * hop, s_ >= 0, t_ == q[it],
            Implies(N > 0, And(S[0] == 0, T[N - 1] != t_)),
            forall(1, N, lambda i: And(S[i] == E[i - 1], T[i] != T[i - 1])), forall(0, N, lambda i: S[i] < E[i]))
    c.local_inv('segments so far', inv)
    def inv2(loc, it):
        g = loc.arr('segment', SEG); N = v.loop.size; s_, t_ = g.f('start')[0], g.f('type')[0]; S, E, T = st.loop, en.loop, ty.loop
        return And(typed(s_, (it + 1) * hop, t_), forall(0, N, lambda i: And(E[i] <= s_, typed(S[i], E[i], T[i]))))
    c.local_inv('frames so far', inv2)
SZ = 2**20
SQRT = uf('sqrt', 1); LOG10 = uf('log10', 1); LOG = uf('log', 1); EXP = uf('exp', 1); POW = uf('pow', 2)
@contract('cq2chroma', 'C19')
def _(c):
    cq = c.arr(PTR); n, nc, bins = c.int(), c.int(), c.int(); ch = c.arr(PTR)
    c.requires(And(n >= 0, n <= SZ, nc >= 0, nc <= SZ, bins >= 1, bins <= SZ)); c.valid(cq, n); c.valid(ch, n)
    X = c.matrix(cq, n, DOUBLE, nc); Y = c.matrix(ch, n, DOUBLE, bins)
    c.assigns(Y, lambda t, b: Sum(0, nc / bins, lambda o: rabs(X[t][o * bins + b])), n=(n, bins))
@contract('mpeg7_constq', 'C19')
def _(c):
    x = c.arr(PTR); n, m = c.int(), c.int()
    c.requires(And(n >= 1, n <= SZ, m >= 0, m <= SZ)); c.valid(x, n)
    X = c.matrix(x, n, DOUBLE, m + 1)
    db = lambda i, j: 10 * LOG10(X[i][j] + fpval(2.0 ** -52))
    norm = lambda i: SQRT(Sum(0, m, lambda j: db(i, j) * db(i, j)))
    c.assigns(X, None, n=(n, m + 1))
    c.ensures('unit norm', lambda: forall(0, n, lambda i: forall(0, m, lambda j: X.new[i][j] == db(i, j) / norm(i))))
@contract('kldist', 'C19')
def _(c):
    a, b = c.arr(), c.arr(); n = c.int()
    c.requires(And(n >= 0, n <= SZ)); c.valid(a, n); c.valid(b, n)
    q = lambda i: (a[i] + b[i]) / 2
    term = lambda i: If(q(i) > 0, If(a[i] > 0, a[i] * LOG(a[i] / q(i)), RealVal(0)) + If(b[i] > 0, b[i] * LOG(b[i] / q(i)), RealVal(0)), RealVal(0))
    c.result(Sum(0, n, term))
    c.local_inv('partial sum', lambda loc, it: loc.phi('d') == Sum(0, it, term))
@contract('create_histograms', 'C19')
def _(c):
    x = c.arr(I32); nx, m, hl = c.int(), c.int(), c.int(); h = c.arr()
    c.requires(And(nx >= 1, nx <= SZ, m >= 1, nx * m <= 2**30, hl >= 1, hl <= nx, hl % 2 == 1), 'sizes'); c.valid(x, nx); c.valid(h, nx * m)
    c.requires(forall(0, nx, lambda i: And(x[i] >= 0, x[i] < m)), 'states')
    c.assigns(h, None, 0, nx * m)

# ---- hidden Markov model
@contract('ddot_', 'C19')
def _(c):
    n = c.arr(I32); x = c.arr(); ix = c.arr(I32); y = c.arr(); iy = c.arr(I32)
    for a in (n, ix, iy): c.valid(a, 1)
    c.requires(And(n[0] >= 0, n[0] <= 2**28, ix[0] == 1, iy[0] == 1)); c.valid(x, n[0]); c.valid(y, n[0])
    c.result(Sum(0, n[0], lambda i: x[i] * y[i]))
    c.local_inv('partial sum', lambda loc, it: And(loc.phi('dtemp') == Sum(0, loc.phi('i__') - 1, lambda i: x[i] * y[i]),
        *[Sum(0, loc.phi('i__') + k, lambda i: x[i] * y[i]) == Sum(0, loc.phi('i__') + k - 1, lambda i: x[i] * y[i]) + x[loc.phi('i__') + k - 1] * y[loc.phi('i__') + k - 1] for k in range(5)]))
@contract('cblas_ddot', 'C19')
def _(c):
    n = c.int(); x = c.arr(); ix = c.int(); y = c.arr(); iy = c.int()
    c.requires(And(n >= 0, n <= 2**28, ix == 1, iy == 1)); c.valid(x, n); c.valid(y, n)
    c.result(Sum(0, n, lambda i: x[i] * y[i]))
def mahal(c, L, x, mu, S):
    return Sum(0, L, lambda i: Sum(0, L, lambda j: S[i][j] * (x[j] - mu[j])) * (x[i] - mu[i]))
def gargs(c):
    x = c.arr(); L = c.int(); mu = c.arr(); ic = c.arr(PTR); det = c.real(); y = c.arr(); z = c.arr()
    c.requires(And(L >= 0, L <= 2**15))
    for a in (x, mu, y, z): c.valid(a, L)
    c.valid(ic, L); S = c.matrix(ic, L, DOUBLE, L)
    c.assigns(y, lambda i: x[i] - mu[i], 0, L); c.assigns(z, None, 0, L)
    return L, det, mahal(c, L, x, mu, S)
PI2 = fpval(2 * 3.14159265358979323846)
@contract('gauss', 'C19')
def _(c):
    L, det, s = gargs(c)
    c.result(EXP(-s / 2) / (POW(PI2, z3.ToReal(L) / 2) * SQRT(det)))
@contract('loggauss', 'C19')
def _(c):
    L, det, s = gargs(c)
    c.result(-(s + z3.ToReal(L) * LOG(PI2) + LOG(det)) / 2)
@contract('hmm_init', 'C19', weight=2)
def _(c):
    x = c.arr(PTR); T, L, N = c.int(), c.int(), c.int()
    c.requires(And(T >= 2, T <= SZ, N >= 1, N <= 2**12, L >= 1, L <= 2**12)); c.valid(x, T); X = c.matrix(x, T, DOUBLE, L)
    c.result_new('struct._model_t')
    mean = lambda d: Sum(0, T, lambda t: X[t][d]) / z3.ToReal(T)
    def post():
        m = c.retobj(); a = c.matrix(m.arr('a', PTR, N), N, DOUBLE, N); p0 = m.arr('p0', DOUBLE, N); cov = c.matrix(m.arr('cov', PTR, L), L, DOUBLE, L); mu = c.matrix(m.arr('mu', PTR, N), N, DOUBLE, L)
        return m, p0, a, mu, cov
    c.keep_sums(); c.local_inv('sum of weights', lambda loc, it: loc.phi('ss') >= z3.ToReal(it))
    c.local_inv('sum of all weights', lambda loc, it: loc.phi('s') >= z3.ToReal(it))
    c.ensures('sizes', lambda: And(c.retobj().N == N, c.retobj().L == L))
    c.ensures('probabilities positive', lambda: And(forall(0, N, lambda i: post()[1][i] > 0), forall(0, N, lambda i: forall(0, N, lambda j: post()[2][i][j] > 0))))
    c.ensures('diagonal covariance', lambda: forall(0, L, lambda d: forall(0, L, lambda e: post()[4][d][e] == If(d == e, Sum(0, T, lambda t: (X[t][d] - mean(d)) * (X[t][d] - mean(d))) / (T - 1), RealVal(0)))))
@contract('invert', trusted='LAPACK (dgetrf, dgetri) from outside the repository: only the memory it writes is assumed')
def _(c):
    cov = c.arr(PTR); L = c.int(); ic = c.arr(PTR); det = c.arr()
    c.requires(And(L >= 1, L <= 2**12)); c.valid(cov, L); c.valid(ic, L); c.valid(det, 1)
    V = c.matrix(cov, L, DOUBLE, L); W = c.matrix(ic, L, DOUBLE, L)
    c.assigns(W, None, n=(L, L)); c.assigns(det, None, 0, 1)
@contract('viterbi_decode', 'C19', weight=2)
def _(c):
    x = c.arr(PTR); T = c.int(); m = c.obj('struct._model_t'); q = c.arr(I32); c.ignore('loggauss')
    N, L = m.N, m.L
    c.requires(And(T >= 1, T <= SZ, N >= 1, N <= 2**12, L >= 1, L <= 2**12)); c.valid(x, T); c.valid(q, T)
    X = c.matrix(x, T, DOUBLE, L); p0 = m.arr('p0', DOUBLE, N)
    A = c.matrix(m.arr('a', PTR, N), N, DOUBLE, N); MU = c.matrix(m.arr('mu', PTR, N), N, DOUBLE, L); CV = c.matrix(m.arr('cov', PTR, L), L, DOUBLE, L)
    c.assigns(q, None, 0, T)
    c.ensures('states in range', lambda: forall(0, T, lambda t: And(q.new[t] >= 0, q.new[t] < N)))
    ok = lambda v: And(v >= 0, v < N)
    def link(loc, it):
        rows = loc.arr('psi', PTR); ct = c.eng.content(loc.st, rows.p.r, rows.p.key(), 'ptr')
        row = lambda i: ArrV(c, ct.read(rows.ptr(i).idx()), I32, 'loop')
        if row(IntVal(0)).p.r not in loc.wr or 'i' in loc.phis and 'havemax' not in loc.phis: return None
        t = loc.phi('t') if 't' in loc.phis else loc.outer('t'); r_, k_ = z3.Ints('lr! lk!')
        full = z3.ForAll([r_, k_], Implies(And(r_ >= 0, r_ < t, k_ >= 0, k_ < N), ok(row(r_)[k_])))
        if 't' in loc.phis: return full
        j = loc.phi('j') if 'j' in loc.phis else loc.outer('j')
        part = forall(0, j, lambda k: ok(row(t)[k]))
        return And(full, part) if 'j' in loc.phis else And(full, part, ok(row(t)[j]))
    c.local_inv('links are states', link)
    def track(loc, it):
        if not loc.writes('q'): return None
        return ok(q.loop[T - 1]) if 'max' in loc.phis else forall(T - 1 - it, T, lambda k: ok(q.loop[k]))
    c.local_inv('states tracked so far', track)
# ---- training: memory written and sizes; the re-estimated values are executed
@contract('forward_backwards', 'C19', weight=2)
def _(c):
    xi = c.arr(PTR); gamma = c.arr(PTR); ll, ll1, ll2 = c.arr(), c.arr(), c.arr(); it, N, T = c.int(), c.int(), c.int(); p0 = c.arr(); a = c.arr(PTR); b = c.arr(PTR)
    c.requires(And(T >= 1, T <= SZ, N >= 1, N <= 2**12)); c.valid(xi, T); c.valid(gamma, T); c.valid(p0, N); c.valid(a, N); c.valid(b, T)
    for x in (ll, ll1, ll2): c.valid(x, 1)
    A = c.matrix(a, N, DOUBLE, N); Bm = c.matrix(b, T, DOUBLE, N); G = c.matrix(gamma, T, DOUBLE, N); XI = c.cube(xi, T, N, DOUBLE, N)
    c.assigns(G, None, n=(T, N)); c.assigns(XI, None, n=(T, N, N))
    for x in (ll, ll1, ll2): c.assigns(x, None, 0, 1)
    c.ensures('previous likelihood kept', lambda: ll1.new[0] == ll[0])
    c.ensures('oldest likelihood', lambda: Implies(it != 2, ll2.new[0] == ll2[0]))
@contract('cblas_dgemm', trusted='BLAS matrix product (ext/cblas): only the memory it writes is assumed', optional=True)
def _(c):
    order, ta, tb, m, n, k = (c.int() for _ in range(6)); al = c.real(); A = c.arr(); lda = c.int(); B = c.arr(); ldb = c.int(); be = c.real(); C = c.arr(); ldc = c.int()
    c.requires(And(order == 102, ta == 112, tb == 111, m >= 1, n >= 1, k >= 1, m <= 2**12, n <= 2**12, k <= SZ, lda == k, ldb == k, ldc == m), 'transposed product of packed column-major operands')
    c.valid(A, m * k); c.valid(B, n * k); c.valid(C, m * n); c.assigns(C, None, 0, m * n)
@contract('baum_welch', 'C19', weight=2)
def _(c):
    p0 = c.arr(); a, mu, cov = (c.arr(PTR) for _ in range(3)); N, T, L = c.int(), c.int(), c.int(); x, xi, gamma = (c.arr(PTR) for _ in range(3))
    c.requires(And(T >= 2, T <= SZ, N >= 1, N <= 2**12, L >= 1, L <= 2**12, T * L <= 2**26), 'sizes')
    c.valid(p0, N); c.valid(a, N); c.valid(mu, N); c.valid(cov, L); c.valid(x, T); c.valid(xi, T); c.valid(gamma, T)
    A = c.matrix(a, N, DOUBLE, N); M = c.matrix(mu, N, DOUBLE, L); V = c.matrix(cov, L, DOUBLE, L); X = c.matrix(x, T, DOUBLE, L); G = c.matrix(gamma, T, DOUBLE, N); XI = c.cube(xi, T, N, DOUBLE, N)
    total = lambda i: Sum(0, N, lambda j: Sum(0, T - 1, lambda t: XI[t][i][j]))
    sg = lambda i: Sum(0, T - 1, lambda t: G[t][i]) + G[T - 1][i]
    c.assigns(A, lambda i, j: If(total(i) == 0, A[i][j], Sum(0, T - 1, lambda t: XI[t][i][j]) / total(i)), n=(N, N))
    c.assigns(p0, lambda i: G[0][i], 0, N)
    c.assigns(M, lambda i, d: If(sg(i) == 0, M[i][d], Sum(0, T, lambda t: G[t][i] * X[t][d]) / sg(i)), n=(N, L))
    c.assigns(V, None, n=(L, L))
@contract('hmm_train', 'C19', weight=2)
def _(c):
    x = c.arr(PTR); T = c.int(); m = c.obj('struct._model_t'); N, L = m.N, m.L; c.ignore('loggauss', 'forward_backwards', 'baum_welch')
    c.requires(And(T >= 2, T <= SZ, N >= 1, N <= 2**12, L >= 1, L <= 2**12, T * L <= 2**26)); c.valid(x, T)
    X = c.matrix(x, T, DOUBLE, L); p0 = m.arr('p0', DOUBLE, N)
    A = c.matrix(m.arr('a', PTR, N), N, DOUBLE, N); MU = c.matrix(m.arr('mu', PTR, N), N, DOUBLE, L); CV = c.matrix(m.arr('cov', PTR, L), L, DOUBLE, L)
    c.assigns(p0, None, 0, N); c.assigns(A, None, n=(N, N)); c.assigns(MU, None, n=(N, L)); c.assigns(CV, None, n=(L, L))
@contract('cluster_melt', 'C19', weight=2)
def _(c):
    h = c.arr(); m, n = c.int(), c.int(); bs = c.arr(); t, k, l = c.int(), c.int(), c.int(); q = c.arr(I32); c.ignore('kldist'); c.opaque('lp', 'cl', 'nc', 'oldc')
    c.requires(And(m >= 1, m <= 2**12, n >= 1, n <= SZ, m * n <= 2**30, t >= 0, t <= 2**20, k >= 1, k <= 2**12, l <= SZ), 'sizes'); c.valid(h, m * n); c.valid(bs, t); c.valid(q, n)
    c.assigns(q, None, 0, n); ok = lambda v: And(v >= 1, v <= k)
    c.ensures('clusters in range', lambda: forall(0, n, lambda i: ok(q.new[i])))
    c.local_inv('clusters so far', lambda loc, it: forall(0, n, lambda i: ok(q.loop[i])) if loc.writes('c') else None)
    def nb(loc, it):
        if 'b' not in loc.phis or not loc.wr: return None
        i, j = loc.outer('i'), loc.outer('j'); rows = loc.arr('nc', PTR)
        row = c.eng.content(loc.st, rows.p.r, rows.p.key(), 'ptr').read(rows.ptr(i).idx())
        if row.r not in loc.wr: return None
        v = ArrV(c, row, I32, 'loop')[j]; return And(v <= 2**22, v + it >= 0)
    c.local_inv('neighbours', nb)
def segargs(c, q, T, fl, N, hl, ncl, nb):
    c.requires(And(T >= 2, T <= SZ, fl >= 1, fl <= 2**12, T * fl <= 2**26, N >= 1, N <= 2**12, N * T <= 2**30, hl >= 1, hl <= T, hl % 2 == 1, ncl >= 1, ncl <= 2**12, nb <= SZ), 'sizes')
    c.valid(q, T); c.assigns(q, None, 0, T)
    c.ensures('types in range', lambda: forall(0, T, lambda i: And(q.new[i] >= 1, q.new[i] <= ncl)))
@contract('cluster_segment', 'C19', weight=2)
def _(c):
    q = c.arr(I32); f = c.arr(PTR); T, fl, N, hl, ncl, nb = (c.int() for _ in range(6)); c.ignore('hmm_train')
    c.valid(f, T); F = c.matrix(f, T, DOUBLE, fl); segargs(c, q, T, fl, N, hl, ncl, nb)
    c.assigns(F, lambda i, j: 10 * F[i][j], n=(T, fl))
@contract('constq_segment', 'C19', weight=2)
def _(c):
    q = c.arr(I32); f = c.arr(PTR); T, bins, nc, ft, N, hl, ncl, nb = (c.int() for _ in range(8)); c.ignore('pca_project', 'mpeg7_constq', 'cq2chroma')
    w = If(ft == 1, nc + 1, nc); fl = If(ft == 1, 21, bins)
    c.requires(And(Or(ft == 1, ft == 2), nc >= If(ft == 1, 20, 0), nc < 2**12, bins >= 1, bins <= 2**12), 'feature type')
    c.valid(f, T); F = c.matrix(f, T, DOUBLE, w); segargs(c, q, T, fl, N, hl, ncl, nb)
    c.assigns(F, None, n=(T, w))
