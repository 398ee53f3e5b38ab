"""Values, memory regions and symbolic states of the qm-dsp verifier.

Integers are SMT Ints (with explicit range obligations), floating point values
are SMT Reals, arrays are functions of their index represented as *updates over
a base expression* so that reads stay quantifier free."""
import z3
from z3 import IntVal, RealVal, And, Or, Not, If, Implies, BoolVal, substitute, simplify, is_true, is_false

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
K = [z3.Int('K!%d' % i) for i in range(4)]
AIR = z3.ArraySort(I, R); AII = z3.ArraySort(I, I)
SUMR = z3.Function('SUM', I, AIR, R)
SUMI = z3.Function('SUMI', I, AII, I)
TRUE = BoolVal(True); FALSE = BoolVal(False)

class Unsupported(Exception):
    pass

_depth = [0]
def under(body_fn):
    """(bound variable, body); nested binders get different variables"""
    j = z3.Int('lam!j%s' % (_depth[0] or ''))
    _depth[0] += 1
    try: return j, body_fn(j)
    finally: _depth[0] -= 1

def lam(body_fn):
    j, b = under(body_fn)
    return z3.Lambda([j], b)

def Sum(lo, hi, fn):
    lo = toz(lo); hi = toz(hi)
    j, body = under((lambda j: fn(j + lo)) if not (z3.is_int_value(lo) and lo.as_long() == 0) else fn)
    body = simplify(body) if z3.is_expr(body) else RealVal(body)
    if body.sort() == I:
        return SUMI(simplify(hi - lo), z3.Lambda([j], body))
    return SUMR(simplify(hi - lo), z3.Lambda([j], body))

def toz(x):
    if isinstance(x, bool): return BoolVal(x)
    if isinstance(x, int): return IntVal(x)
    if isinstance(x, float): return fpval(x)
    return x

def fpval(x):
    import fractions
    fr = fractions.Fraction(x)
    return z3.Q(fr.numerator, fr.denominator)

def isconst(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)

def ival(e):
    e = e if z3.is_int_value(e) else simplify(e)
    return e.as_long() if z3.is_int_value(e) else None

def subst(e, pairs):
    if not pairs: return e
    return substitute(e, *pairs)

def consts_of(e, acc=None, seen=None):
    """set of uninterpreted decl names (constants and functions) in e"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: acc.add(d.name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return acc

class Region:
    """a memory object: array (size elements) of LLVM type `ty`"""
    def __init__(self, name, ty=None, size=None, undef=False, bytes_=None, ndim=1, dims=None):
        self.name = name; self.ty = ty; self.size = size; self.init = {}
        self.undef = undef          # contents initially indeterminate
        self.bytes = bytes_         # malloc'd with this many bytes (element type not known yet)
        self.dims = dims            # for multi-row regions: list of sizes per leading dynamic index
        self.encl = ()              # enclosing iteration symbols at creation
        self.kind = 'heap'
        self.outer = True
    def __repr__(self): return '<%s>' % self.name

class Ptr:
    """region + path; path elements: ('d', term) dynamic index, int field, 'v' vector data"""
    __slots__ = ('r', 'p')
    def __init__(self, r, p): self.r = r; self.p = tuple(p)
    def __repr__(self): return 'Ptr(%s,%s)' % (self.r, self.p)
    def key(self): return tuple('*' if isinstance(x, tuple) else x for x in self.p)
    def idx(self): return [x[1] for x in self.p if isinstance(x, tuple)]

class PNull:
    def __repr__(self): return 'NULL'
NULL = PNull()

class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'PIte(%s,%s,%s)' % (self.c, self.a, self.b)

class FnPtr:
    def __init__(self, name): self.name = name

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Agg:
    def __init__(self, els): self.els = list(els)

class PDiff:
    """difference of two pointers into the same array: n elements of the given size"""
    def __init__(self, n, size): self.n, self.size = n, size

def isptr(v): return isinstance(v, (Ptr, PNull, PIte, FnPtr))

def psubst(v, pairs):
    """substitute in any value"""
    if not pairs: return v
    if z3.is_expr(v): return substitute(v, *pairs)
    if isinstance(v, Ptr):
        return Ptr(v.r, [('d', substitute(x[1], *pairs)) if isinstance(x, tuple) else x for x in v.p])
    if isinstance(v, PIte):
        return mkpite(simplify(substitute(v.c, *pairs)), psubst(v.a, pairs), psubst(v.b, pairs))
    if isinstance(v, PDiff): return PDiff(substitute(v.n, *pairs), v.size)
    return v

def mapval(v, f):
    if z3.is_expr(v): return f(v)
    if isinstance(v, Ptr):
        return Ptr(v.r, [('d', f(x[1])) if isinstance(x, tuple) else x for x in v.p])
    if isinstance(v, PIte):
        return mkpite(simplify(f(v.c)), mapval(v.a, f), mapval(v.b, f))
    if isinstance(v, PDiff): return PDiff(f(v.n), v.size)
    return v

def mkpite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if same(a, b): return a
    return PIte(c, a, b)

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and len(a.p) == len(b.p) and all(
            (x == y) if not (isinstance(x, tuple) and isinstance(y, tuple)) else x[1].eq(y[1]) for x, y in zip(a.p, b.p))
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c.eq(b.c) and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.els) == len(b.els) and all(same(x, y) for x, y in zip(a.els, b.els))
    return False

def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if same(a, b): return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort():
            if a.sort() == R and b.sort() == I: b = z3.ToReal(b)
            elif a.sort() == I and b.sort() == R: a = z3.ToReal(a)
            else: raise Unsupported('ite of different sorts')
        if a.sort() == B:
            if is_true(a) and is_false(b): return c
            if is_false(a) and is_true(b): return Not(c)
        return If(c, a, b)
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isptr(a) and isptr(b):
        return mkpite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([ite(c, x, y) for x, y in zip(a.els, b.els)])
    raise Unsupported('cannot merge values %r / %r' % (a, b))

class Content:
    """value of all cells of one (region, key): base expr over K, then updates (cond, val) (last wins)"""
    __slots__ = ('base', 'ups', 'n', 'isp')
    def __init__(self, base, ups, n, isp=False):
        self.base = base; self.ups = tuple(ups); self.n = n; self.isp = isp
    def read(self, idx, top=None):
        """idx: list of Int terms"""
        pairs = [(K[i], idx[i]) for i in range(self.n)]
        acc = []
        res = None
        for (c, v) in reversed(self.ups):
            c2 = simplify(subst(c, pairs)) if pairs else c
            if is_true(c2):
                res = psubst(v, pairs); break
            if is_false(c2): continue
            acc.append((c2, psubst(v, pairs)))
        if res is None:
            res = psubst(self.base, pairs)
        for (c2, v) in reversed(acc):
            res = ite(c2, v, res)
        return res
    def store(self, idx, v):
        c = And(*[K[i] == idx[i] for i in range(self.n)]) if self.n > 1 else (K[0] == idx[0] if self.n == 1 else TRUE)
        ups = self.ups
        if self.n == 0:
            return Content(v, (), 0, self.isp)
        # drop an identical previous update
        if ups and ups[-1][0].eq(c): ups = ups[:-1]
        return Content(self.base, ups + ((c, v),), self.n, self.isp)
    def update(self, cond, val):
        if self.n == 0 and is_true(cond): return Content(val, (), 0, self.isp)
        if self.n == 0:
            return Content(ite(cond, val, self.read([])), (), 0, self.isp)
        return Content(self.base, self.ups + ((cond, val),), self.n, self.isp)
    def expr(self):
        return self.read(K[:self.n])
    def same(self, o):
        return self is o or (same(self.base, o.base) and len(self.ups) == len(o.ups) and
            all(a[0].eq(b[0]) and same(a[1], b[1]) for a, b in zip(self.ups, o.ups)))
    def map(self, f):
        return Content(mapval(self.base, f), [(f(c), mapval(v, f)) for c, v in self.ups], self.n, self.isp)

def merge_content(g, a, b):
    """value a if g else b"""
    if a is b or a.same(b): return a
    if a.n == 0:
        return Content(ite(g, a.read([]), b.read([])), (), 0, a.isp)
    if same(a.base, b.base):
        i = 0
        while i < len(a.ups) and i < len(b.ups) and a.ups[i][0].eq(b.ups[i][0]) and same(a.ups[i][1], b.ups[i][1]): i += 1
        common = a.ups[:i]; ra = a.ups[i:]; rb = b.ups[i:]
        # same write conditions: merge values pairwise
        if len(ra) == len(rb) and all(x[0].eq(y[0]) for x, y in zip(ra, rb)):
            try:
                return Content(a.base, common + tuple((x[0], ite(g, x[1], y[1])) for x, y in zip(ra, rb)), a.n, a.isp)
            except Unsupported:
                pass
        ng = simplify(Not(g))
        ups = common + tuple((simplify(And(g, c)), v) for c, v in ra) + tuple((simplify(And(ng, c)), v) for c, v in rb)
        return Content(a.base, ups, a.n, a.isp)
    return Content(b.base, b.ups + ((g, a.expr()),), a.n, a.isp)

class State:
    __slots__ = ('env', 'mem', 'pc', 'freed')
    def __init__(self, env=None, mem=None, pc=(), freed=None):
        self.env = env if env is not None else {}
        self.mem = mem if mem is not None else {}
        self.pc = tuple(pc)
        self.freed = freed if freed is not None else {}
    def fork(self):
        return State(dict(self.env), dict(self.mem), self.pc, dict(self.freed))
    def br(self, c):
        if is_true(c): return
        self.pc = self.pc + (('br', c),)
    def fact(self, c):
        if is_true(c): return
        for k, d in self.pc:
            if d is c or d.eq(c): return
        self.pc = self.pc + (('fact', c),)
    def hyps(self):
        return [c for _, c in self.pc]

def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    if not xs: return TRUE
    if len(xs) == 1: return xs[0]
    return And(*xs)

MERGEBOTH = [0]
def merge_states(sa, sb):
    """may raise Unsupported when pointer values etc. cannot be merged"""
    i = 0
    la, lb = len(sa.pc), len(sb.pc)
    while i < la and i < lb and (sa.pc[i] is sb.pc[i] or (sa.pc[i][0] == sb.pc[i][0] and sa.pc[i][1].eq(sb.pc[i][1]))): i += 1
    pre = sa.pc[:i]; xa = sa.pc[i:]; xb = sb.pc[i:]
    ga = conj([c for k, c in xa if k == 'br']); gb = conj([c for k, c in xb if k == 'br'])
    s = State()
    if simplify(ga == Not(gb)).eq(TRUE): either = TRUE
    else: either = simplify(Or(ga, gb))
    pc = list(pre)
    if not is_true(either): pc.append(('br', either))
    g = simplify(ga)
    if is_true(g) or is_false(g):   # cannot discriminate by branch conditions of a only
        g2 = simplify(Not(gb))
        if not (is_true(g2) or is_false(g2)): g = g2
    # facts of a side hold when that side is the one taken
    if is_true(ga) and not is_true(gb): fa, fb = g, gb
    elif is_true(gb) and not is_true(ga): fa, fb = ga, simplify(Not(g))
    else: fa, fb = ga, gb
    if is_true(fa) and is_true(fb) and any(k == 'fact' for k, c in xa + xb) or is_false(fa) or is_false(fb): MERGEBOTH[0] += 1
    for gg, xs in ((fa, xa), (fb, xb)):
        for k, c in xs:
            if k == 'fact': pc.append(('fact', c if is_true(gg) else Implies(gg, c)))
    s.pc = tuple(pc)
    for k, v in sa.env.items():
        if k in sb.env:
            w = sb.env[k]
            if v is w or same(v, w): s.env[k] = v
            else:
                s.env[k] = ite(g, v, w)
    for k in set(sa.mem) | set(sb.mem):
        a = sa.mem.get(k); b = sb.mem.get(k)
        if a is None or b is None:
            # created on one side only (lazily initialised or local): initial content of the other is the region's init
            s.mem[k] = (a or b) if (a is None or b is None) and k[0].init.get(k[1]) is None else merge_content(g, a or k[0].init[k[1]], b or k[0].init[k[1]])
        else:
            s.mem[k] = merge_content(g, a, b)
    for k in set(sa.freed) | set(sb.freed):
        a = sa.freed.get(k, FALSE); b = sb.freed.get(k, FALSE)
        s.freed[k] = a if a.eq(b) else simplify(If(g, a, b))
    return s
