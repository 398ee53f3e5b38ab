"""Contract language.  A contract is a python function  spec(c)  attached to the
demangled name of a function of the code base.  It binds the parameters in
order, states requires/ensures/assigns/result over *views* of the memory, and is
used in two ways: `verify` executes the real body symbolically from every state
satisfying the requires and discharges everything else; `call_contract` replaces
a call by the contract (requires become obligations of the caller)."""
import z3, itertools, time
from .core import *
from .exec import Engine, Frame, simp, divexact
from .prove import uf, has_q, RECFUNS
from . import ir
from .lib import elem, setty

DOUBLE = ('prim', 'double'); FLOAT = ('prim', 'float'); I32 = ('prim', 'i32'); I64 = ('prim', 'i64'); I8 = ('prim', 'i8'); PTR = ('prim', 'ptr')

class VEC:
    def __init__(self, el): self.el = el

def lty(el):
    if isinstance(el, VEC): return ('named', 'class.std::vector!' + repr_ty(el))
    if isinstance(el, str): return ('named', el)
    return el

def repr_ty(el):
    n = {'double': 'double', 'float': 'float', 'i32': 'int', 'i64': 'long'}
    if isinstance(el, VEC):
        s = repr_ty(el.el)
        return 'std::vector<%s, std::allocator<%s> >' % (s, s + (' ' if s.endswith('>') else ''))
    if isinstance(el, str): return el.split('.', 1)[1]
    return n[el[1]]

class ContractError(Exception): pass

class Contract:
    def __init__(self, dem, spec, modular=True, note='', optional=False, weight=1, trusted=None):
        self.trusted = trusted      # reason why this contract is assumed at call sites and not verified
        self.kind = 'contract'; self.weight = weight; self.dem = dem; self.spec = spec; self.modular = modular; self.note = note; self.optional = optional

def same_ptr(a, b):
    """condition under which the pointers are equal"""
    if same(a, b): return TRUE
    if isinstance(a, PIte): return simplify(If(a.c, same_ptr(a.a, b), same_ptr(a.b, b)))
    if isinstance(b, PIte): return simplify(If(b.c, same_ptr(a, b.a), same_ptr(a, b.b)))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and len(a.p) == len(b.p):
        cs = []
        for x, y in zip(a.p, b.p):
            if isinstance(x, tuple) and isinstance(y, tuple): cs.append(x[1] == y[1])
            elif x != y: return FALSE
        return simplify(And(*cs))
    return FALSE

def arrof(fn):
    """total array (mathematical function) j -> fn(j), for use as an argument of spec functions"""
    return lam(lambda j: simplify(toz(fn(j))))

class RecFun:
    """family of spec functions defined by primitive recursion on their last argument:
    F_j(args, 0) = init(args)[j],  F_j(args, t+1) = step(args, t, [F_i(args, t)])[j]"""
    def __init__(self, name, sorts, outs, init, step, reads=None):
        self.init = init; self.step = step
        self.reads = reads or {}    # argument number -> 't' (array read at the current position only) or n (read below n only)
        self.f = [z3.Function('%s.%d' % (name, j), *sorts, I, o) for j, o in enumerate(outs)]
        for j in range(len(outs)): RECFUNS[self.f[j].name()] = (self, j)
        # check the declared read ranges
        ar = [z3.Const('ra!%d' % i, srt) for i, srt in enumerate(sorts)]; t = z3.Int('rt!'); sv = [z3.Const('rs!%d' % i, o) for i, o in enumerate(outs)]
        for e in self.init(ar) + self.step(ar, t, sv):
            e = toz(e); todo = [e]
            while todo:
                x = todo.pop()
                if z3.is_select(x):
                    for i, r in self.reads.items():
                        if x.arg(0).eq(ar[i]):
                            k = simplify(x.arg(1))
                            assert (r == 't' and k.eq(t)) or (r != 't' and z3.is_int_value(k) and 0 <= k.as_long() < r), name
                            break
                    else: todo += x.children()
                else:
                    for i in self.reads: assert not x.eq(ar[i]), name
                    todo += x.children()
    def at(self, args, t): return [f(*args, t) for f in self.f]
    def inst(self, j, app):
        a = app.children(); args, t = a[:-1], a[-1]
        i0 = self.init(args)[j]; s0 = self.step(args, simplify(t - 1), [f(*args, simplify(t - 1)) for f in self.f])[j]
        return [Implies(t == 0, app == i0), Implies(t > 0, app == simplify(s0))]

class CovFun:
    """spec function defined by course-of-values recursion on its last argument t:
    F(args,t) = hist(args,t) for t<0, = body(args,t,F) for t>=0, where body refers to F at smaller t only"""
    def __init__(self, name, sorts, hist, body, reads={}):
        self.f = z3.Function(name, *sorts, I, R); self.hist = hist; self.body = body; self.reads = dict(reads); self.custom = None
        RECFUNS[name] = (self, 0)
    def at(self, args, t): return self.f(*args, toz(t))
    def inst(self, j, app):
        a = app.children(); args, t = a[:-1], a[-1]
        return [Implies(t < 0, app == simplify(self.hist(args, t))), Implies(t >= 0, app == simplify(self.body(args, t, lambda u: self.f(*args, u))))]

def forall(lo, hi, fn, tag=itertools.count()):
    j = z3.Int('fa!%d' % next(tag))
    b = fn(j)
    return z3.ForAll([j], Implies(And(j >= lo, j < hi), b))

class View:
    def __init__(self, c, p, which='pre'):
        self.c = c; self.p = p; self.which = which
    @property
    def st(self): return self.c.state(self.which)

class ArrV(View):
    """n elements starting at p"""
    def __init__(self, c, p, el, which='pre'):
        View.__init__(self, c, p, which); self.el = el
    @property
    def new(self): return ArrV(self.c, self.p, self.el, 'post')
    @property
    def loop(self): return ArrV(self.c, self.p, self.el, 'loop')
    def ptr(self, i):
        return Ptr(self.p.r, self.p.p[:-1] + (('d', simplify(self.p.p[-1][1] + toz(i))),))
    def __getitem__(self, i):
        i = toz(i)
        if isinstance(self.p, PIte):
            return ite(self.p.c, ArrV(self.c, self.p.a, self.el, self.which)[i], ArrV(self.c, self.p.b, self.el, self.which)[i])
        if isinstance(self.p, PNull): return z3.RealVal(0)
        q = self.ptr(i)
        if isinstance(self.el, VEC): return VecV(self.c, q, self.el.el, self.which)
        if isinstance(self.el, str): return ObjV(self.c, q, self.el, self.which)
        if self.el == PTR: return self.c.eng.content(self.st, q.r, q.key(), 'ptr').read(q.idx())
        q2 = self.c.eng.leafptr(self.st, q, self.el) if self.p.r.ty is not None else q
        ct = self.c.eng.content(self.st, q2.r, q2.key(), self.el)
        return ct.read(q2.idx())
    def cell(self):
        """(region, key, idx-list prefix, base)"""
        q = self.c.eng.leafptr(self.st, self.p, self.el)
        return q
    def f(self, name):
        return MemV(self.c, self.p, self.el if isinstance(self.el, str) else self.el[1], name, self.which)
    def row(self, i, el, n=None):
        """double** : array view of row i"""
        p = self[i]
        return ArrV(self.c, p, el, self.which)

class MemV(ArrV):
    """member `name` of each of the structs of an array"""
    def __init__(self, c, p, sty, name, which='pre'):
        i, t = c.field(sty, name)
        ArrV.__init__(self, c, p, t, which); self.sty = sty; self.i = i; self.name = name
    @property
    def new(self): return MemV(self.c, self.p, self.sty, self.name, 'post')
    @property
    def loop(self): return MemV(self.c, self.p, self.sty, self.name, 'loop')
    def __getitem__(self, k):
        q = Ptr(self.p.r, self.p.p[:-1] + (('d', simplify(self.p.p[-1][1] + toz(k))), self.i))
        return self.c.eng.content(self.st, q.r, q.key(), self.el).read(q.idx())
    def leaf(self): return Ptr(self.p.r, self.p.p + (self.i,))

class Matrix:
    """rows of a pointer array"""
    def __init__(self, c, row, el, which): self.c = c; self.row = row; self.el = el; self.which = which
    def __getitem__(self, i): return ArrV(self.c, self.row(i), self.el, self.which)
    @property
    def new(self): return Matrix(self.c, self.row, self.el, 'post')
    @property
    def loop(self): return Matrix(self.c, self.row, self.el, 'loop')

class Cube:
    """rows of an array of pointer arrays: c[i][j] is the row"""
    def __init__(self, c, row2, el, which): self.c = c; self.row2 = row2; self.el = el; self.which = which
    def __getitem__(self, i): return Matrix(self.c, lambda j: self.row2(i, j), self.el, self.which)
    @property
    def new(self): return Cube(self.c, self.row2, self.el, 'post')

class VecV(View):
    def __init__(self, c, p, el, which='pre'):
        View.__init__(self, c, p, which); self.el = el
        setty(c.eng, p, lty(el))
        if isinstance(el, VEC):
            setty(c.eng, elem(p, IntVal(0)), lty(el.el))
    @property
    def new(self): return VecV(self.c, self.p, self.el, 'post')
    @property
    def loop(self): return VecV(self.c, self.p, self.el, 'loop')
    @property
    def size(self): return self.c.eng.vsize(self.st, self.p)
    @property
    def data(self): return ArrV(self.c, elem(self.p, IntVal(0)), self.el, self.which)
    def __getitem__(self, i):
        return self.data[i]

class ObjV(View):
    def __init__(self, c, p, ty, which='pre'):
        object.__setattr__(self, 'ty', ty)
        View.__init__(self, c, p, which)
    @property
    def new(self): return ObjV(self.c, self.p, self.ty, 'post')
    @property
    def loop(self): return ObjV(self.c, self.p, self.ty, 'loop')
    def field(self, name):
        i, t = self.c.field(self.ty, name)
        return Ptr(self.p.r, self.p.p + (i,)), t
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        p, t = self.field(name)
        if t == PTR: raise ContractError('pointer member %s' % name)
        if t[0] != 'prim': raise ContractError('aggregate member %s' % name)
        ct = self.c.eng.content(self.st, p.r, p.key(), t)
        v = ct.read(p.idx())
        if z3.is_expr(v) and v.sort() == I and not z3.is_int_value(v):
            w = int(t[1][1:])
            self.st.fact(And(v >= (-2**(w-1)), v < 2**(w-1)))
            if t == I8: self.st.fact(And(v >= 0, v <= 1))
        return v
    def rawptr(self, name):
        p, t = self.field(name)
        return self.c.eng.content(self.st, p.r, p.key(), 'ptr').read(p.idx())
    def vec(self, name, el):
        p, t = self.field(name)
        return VecV(self.c, p, el, self.which)
    def obj(self, name, ty):
        p, t = self.field(name)
        return ObjV(self.c, p, ty, self.which)
    def arr(self, name, el, n):
        """pointer member to n elements; n may be None (null allowed through c.null)"""
        p, t = self.field(name)
        if t[0] == 'arr':
            return ArrV(self.c, Ptr(p.r, p.p + (('d', IntVal(0)),)), el, self.which)
        return self.c.memptr(self, name, p, el, n)
    def pobj(self, name, ty):
        p, t = self.field(name)
        v = self.c.memptr(self, name, p, ty, IntVal(1))
        return ObjV(self.c, v.p, ty, self.which)
    def scalar(self, name):
        """ArrV of one element for assigns"""
        p, t = self.field(name)
        return Cell(self.c, p, t)

class Cell(View):
    def __init__(self, c, p, t, which='pre'):
        View.__init__(self, c, p, which); self.t = t

class Ctx:
    def __init__(self, eng, st, args, params, mode, name):
        self.eng = eng; self.pre = st; self.args = args; self.params = params; self.mode = mode
        self.k = 0; self.name = name
        self.postst = None
        self.reqs = []; self.enss = []; self.eff = []; self.res = None; self.resp = None; self.thr = None; self.resnew = None
        self.side = []; self.hints = []; self.free_regions = []; self.casesplits = []
        self.rebuilt = []; self.noframe = False; self.folds = []; self.unroll_n = 0
        self.retv = None
        self.cache = {}

    def state(self, which):
        if which == 'loop': return self.eng.loopst
        if which == 'pre' or self.postst is None: return self.pre
        return self.postst

    # ---- types
    def field(self, ty, name):
        mem = self.eng.mod.members(ty.split('.', 1)[1])
        if mem is None and ty == 'class.std::valarray': mem = ['_M_size', '_M_data']
        if mem is None: raise ContractError('no debug info for ' + ty)
        if name not in mem: raise ContractError('no member %s in %s' % (name, ty))
        i = mem.index(name)
        rt = self.eng.mod.resolve(('named', ty))
        fl = list(range(len(rt[1])))
        # padding elements [k x i8] of packed structs are no members
        k = 0
        while len(fl) > len(mem) and k < len(fl):
            t = rt[1][fl[k]]
            if t[0] == 'arr' and t[2] == I8 and k > 0: fl.pop(k)
            else: k += 1
        i = fl[i]
        return i, rt[1][i]

    # ---- parameter binding
    def nextarg(self, want):
        k = self.k; self.k += 1
        if k >= len(self.params): raise ContractError('too few parameters in %s' % self.name)
        t, nm, sret = self.params[k]
        if want == 'ptr' and t != PTR: raise ContractError('parameter %d of %s is not a pointer' % (k, self.name))
        if want in ('i', 'r') and t == PTR: raise ContractError('parameter %d of %s is a pointer' % (k, self.name))
        return k, t, nm
    def int(self):
        k, t, nm = self.nextarg('i')
        if self.mode == 'verify':
            if t == ('prim', 'i1'):
                v = z3.Bool(nm)
            else:
                v = z3.Int(nm); w = int(t[1][1:])
                self.pre.fact(And(v >= -2**(w-1), v < 2**(w-1)))
            self.args[k] = v
        return self.args[k]
    def bool(self): return self.int()
    def real(self):
        k, t, nm = self.nextarg('r')
        if self.mode == 'verify':
            self.args[k] = z3.Real(nm)
        return self.args[k]
    def region(self, nm, el, n, kind=None):
        r = Region(nm, lty(el), n, undef=False)
        r.encl = ()
        if kind: r.kind = kind
        return r
    def arr(self, el=DOUBLE, n=None, undef=False, null=False):
        """pointer to array; size n given now or later by c.valid(view, n)"""
        k, t, nm = self.nextarg('ptr')
        if self.mode == 'verify':
            r = self.region(nm, el, toz(n) if n is not None else z3.Int(nm + '!len'))
            if n is None:
                self.pre.fact(And(r.size >= 0, r.size <= 2**30))
            p = Ptr(r, (('d', IntVal(0)),))
            if null:
                p = mkpite(z3.Bool(nm + '!null'), NULL, p)
            self.args[k] = p
        else:
            p = self.args[k]
            if isinstance(p, Ptr) and p.r.ty is None:
                self.eng.set_type(p.r, lty(el))
            if isinstance(p, Ptr): p = self.norm(p, el)
            if n is not None: self.valid(ArrV(self, p, el), n)
        return ArrV(self, p, el)
    def into(self, view, name):
        """pointer parameter designating an element of the given array: its index"""
        k, t, nm = self.nextarg('ptr')
        if self.mode == 'verify':
            at = z3.Int(name + '!at'); self.args[k] = view.ptr(at); return at
        p = self.args[k]
        if not (isinstance(p, Ptr) and p.r is view.p.r and len(p.p) == len(view.p.p)): raise ContractError('pointer into another array')
        return simplify(p.p[-1][1] - view.p.p[-1][1])
    def norm(self, p, el):
        can = lambda t: ('named', self.eng.mod.layout(t[1])) if t is not None and t[0] == 'named' else t
        want = can(lty(el))
        t = self.eng.ty_of(self.pre, p)
        g = 0
        while t is not None and can(t) != want and g < 5:
            rt = self.eng.rtype(t)
            if rt[0] == 'struct' and not self.eng.is_vec(t): p = Ptr(p.r, p.p + (0,))
            elif rt[0] == 'arr': p = Ptr(p.r, p.p + (('d', IntVal(0)),))
            else: break
            t = self.eng.ty_of(self.pre, p); g += 1
        return p
    def isnull(self, view):
        p = view.p
        if isinstance(p, PNull): return TRUE
        if isinstance(p, PIte):
            return simplify(If(p.c, self.isnull(ArrV(self, p.a, None)), self.isnull(ArrV(self, p.b, None))))
        return FALSE
    def valid(self, view, n):
        """requires: view designates n readable/writable elements"""
        n = toz(n)
        p = view.p
        if self.mode == 'verify' and view.which == 'pre':
            if isinstance(p, PIte): p = p.b
            p.r.size = n
            self.pre.fact(n <= 2**30)
            return
        self.requires(self.validcond(p, n), 'valid(%d elements)' % self.k)
    def typed(self, v, el):
        if isinstance(v, Ptr) and v.r.ty is None: self.eng.set_type(v.r, lty(el))
    def validcond(self, p, n, st=None):
        if isinstance(p, PNull): return simplify(n <= 0)
        if isinstance(p, PIte):
            return simplify(If(p.c, self.validcond(p.a, n), self.validcond(p.b, n)))
        if not isinstance(p, Ptr): return FALSE
        st = st or self.pre
        first = self.eng.bounds(st, p)
        last = self.eng.bounds(st, Ptr(p.r, p.p[:-1] + (('d', simplify(p.p[-1][1] + n - 1)),)))
        return Implies(n > 0, And(*(first + last)))
    def vec(self, el=DOUBLE):
        k, t, nm = self.nextarg('ptr')
        if self.mode == 'verify':
            r = self.region(nm, VEC(el), IntVal(1))
            self.args[k] = Ptr(r, (('d', IntVal(0)),))
        return VecV(self, self.args[k], el)
    def outvec(self, el=DOUBLE):
        """struct-return vector"""
        k, t, nm = self.nextarg('ptr')
        if not self.params[k][2]: raise ContractError('%s does not return through memory' % self.name)
        if self.mode == 'verify':
            r = self.region('ret!', VEC(el), IntVal(1)); r.undef = True
            self.args[k] = Ptr(r, (('d', IntVal(0)),))
        self.free_regions.append(self.args[k].r); self.rebuilt.append(self.args[k])
        v = VecV(self, self.args[k], el)
        return v
    def obj(self, ty, undef=False):
        k, t, nm = self.nextarg('ptr')
        if self.mode == 'verify':
            r = self.region(nm, self.eng.mod.layout(ty), IntVal(1)); r.undef = undef
            self.args[k] = Ptr(r, (('d', IntVal(0)),))
        p = self.args[k]
        if isinstance(p, Ptr):
            if p.r.ty is None: self.eng.set_type(p.r, lty(self.eng.mod.layout(ty)))
            p = self.norm(p, self.eng.mod.layout(ty))
        return ObjV(self, p, ty)
    def this(self, ty, ctor=False):
        o = self.obj(ty, undef=ctor)
        if ctor:
            self.free_regions.append(o.p.r); self.rebuilt.append(o.p)
        return o
    def virtual(self, o, path):
        """virtual calls on o go to the members of its class: o's virtual table pointer, at the given member path"""
        if self.mode != 'verify': return
        n = o.ty.split('.', 1)[1]; q = Ptr(o.p.r, o.p.p + tuple(path))
        g = self.eng.glob(self.pre, '_ZTV%d%s' % (len(n), n))
        if not isinstance(g, Ptr): raise ContractError('no virtual table for ' + n)
        self.pre.mem[(q.r, q.key())] = Content(Ptr(g.r, g.p + (0, ('d', IntVal(2)))), (), q.key().count('*'), True)
        self.eng.assumptions.add('objects of class %s are of that very class (no subclass overrides its virtual functions)' % n)
    def cell(self, el):
        """pointer to one scalar (reference parameter)"""
        a = self.arr(el, 1)
        return a

    def memptr(self, o, name, p, el, n):
        """pointer member designating n elements"""
        st = self.state(o.which)
        n = toz(n)
        if self.mode == 'verify' and o.which == 'pre':
            key = (p.r, p.p)
            kk = (p.r.name, repr(p.p))
            if kk not in self.cache:
                r = self.region('%s.%s' % (o.p.r.name, name), el, n)
                if not z3.is_int_value(n): self.pre.fact(n <= 2**30)
                r.kind = 'heap'
                self.cache[kk] = r
                self.pre.mem[(p.r, p.key())] = Content(Ptr(r, (('d', IntVal(0)),)), (), p.key().count('*'), True)
                self.pre.freed[r] = FALSE
            r = self.cache[kk]
            return ArrV(self, Ptr(r, (('d', IntVal(0)),)), el, 'pre')
        v = self.eng.content(st, p.r, p.key(), 'ptr').read(p.idx())
        if isinstance(v, Undef) and self.mode == 'call' and o.which == 'post':
            # constructed by the callee: memory of the new object's own, described by the postcondition
            nr = self.region('%s.%s@%s' % (o.p.r.name, name, self.name), el, n); nr.encl = tuple(self.eng.encl); nr.outer = False; nr.undef = el == PTR or isinstance(el, str) and el.startswith(('class.', 'struct.'))
            v = Ptr(nr, (('d', IntVal(0)),)); st.freed[nr] = FALSE
            st.mem[(p.r, p.key())] = self.eng.content(st, p.r, p.key(), 'ptr').store(p.idx(), v)
        if isinstance(v, Ptr):
            if v.r.ty is None: self.eng.set_type(v.r, lty(el))
            v = self.norm(v, el)
        self.side.append(self.validcond(v, n, st))
        if isinstance(v, Ptr):
            fr = st.freed.get(v.r)
            if fr is not None: self.side.append(Not(fr))
        return ArrV(self, v, el, o.which)

    def nullptr(self, o, name):
        """requires: the pointer member is null"""
        p, t = o.field(name)
        if self.mode == 'verify': self.pre.mem[(p.r, p.key())] = Content(NULL, (), p.key().count('*'), True); return
        v = self.eng.content(self.pre, p.r, p.key(), 'ptr').read(p.idx())
        self.requires(self.isnull(ArrV(self, v, None)), name + ' is null')

    def null_after(self, o, name):
        """postcondition: the pointer member of the (new) object is null"""
        p, t = o.field(name); st = self.state('post')
        if self.mode == 'call':
            st.mem[(p.r, p.key())] = self.eng.content(st, p.r, p.key(), 'ptr').store(p.idx(), NULL); return TRUE
        return self.isnull(ArrV(self, self.eng.content(st, p.r, p.key(), 'ptr').read(p.idx()), None))

    def rows(self, view, k, el, n):
        """k pointers (an array of pointers, or a pointer member of an array of structs), each designating n elements"""
        n = toz(n); out = []
        for i in range(k):
            q = view.ptr(i)
            if isinstance(view, MemV): q = Ptr(q.r, q.p + (view.i,))
            if self.mode == 'verify' and view.which == 'pre':
                kk = (q.r.name, repr(q.p), i)
                if kk not in self.cache:
                    r = self.region('%s[%d]' % (q.r.name, i), el, n); r.kind = 'heap'; self.cache[kk] = r
                    ct = self.pre.mem.get((q.r, q.key())) or Content(NULL, (), q.key().count('*'), True)
                    self.pre.mem[(q.r, q.key())] = ct.store(q.idx(), Ptr(r, (('d', IntVal(0)),)))
                    self.pre.freed[r] = FALSE
                out.append(ArrV(self, Ptr(self.cache[kk], (('d', IntVal(0)),)), el, 'pre')); continue
            v = self.eng.content(self.state(view.which), q.r, q.key(), 'ptr').read(q.idx())
            if isinstance(v, Ptr) and v.r.ty is None: self.eng.set_type(v.r, lty(el))
            self.side.append(self.validcond(v, n, self.state(view.which)))
            out.append(ArrV(self, v, el, view.which))
        return out

    def matrix(self, view, k, el, n):
        """array of k row pointers, each designating n elements of its own"""
        n = toz(n); k = toz(k); q = view.ptr(0)
        if self.mode == 'verify' and view.which == 'pre':
            kk = (q.r.name, repr(q.p), 'matrix')
            if kk not in self.cache:
                r = self.region('%s[]' % q.r.name, el, None); r.kind = 'heap'; r.dims = [k, n]; self.cache[kk] = r
                d = q.key().count('*') - 1
                self.pre.mem[(q.r, q.key())] = Content(Ptr(r, (('d', K[d]), ('d', IntVal(0)))), (), q.key().count('*'), True)
                self.pre.freed[r] = FALSE
            r = self.cache[kk]
            return Matrix(self, lambda i: Ptr(r, (('d', toz(i)), ('d', IntVal(0)))), el, 'pre')
        ct = self.eng.content(self.state(view.which), q.r, q.key(), 'ptr')
        if self.mode == 'call' and view.which == 'post' and isinstance(ct.base, Undef) and not ct.ups and len(q.p) == 1:
            # constructed by the callee: rows of the new object's own
            nr = self.region('%s[]@%s' % (q.r.name, self.name), el, None); nr.kind = 'heap'; nr.dims = [k, n]; nr.encl = tuple(self.eng.encl); nr.outer = False
            st = self.state('post'); st.freed[nr] = FALSE
            ct = st.mem[(q.r, q.key())] = Content(Ptr(nr, (('d', K[0]), ('d', IntVal(0)))), (), 1, True)
        row = lambda i: ct.read(view.ptr(i).idx())
        j = z3.Int('row!'); v = row(j); self.typed(v, el)
        self.side.append(z3.ForAll([j], Implies(And(j >= 0, j < k), self.validcond(v, n, self.state(view.which)))))
        return Matrix(self, row, el, view.which)

    def cube(self, view, k, m, el, n):
        """array of k pointers to arrays of m row pointers, each designating n elements of its own"""
        k, m, n = toz(k), toz(m), toz(n); q = view.ptr(0)
        if self.mode == 'verify':
            kk = (q.r.name, 'cube')
            if kk not in self.cache:
                r1 = self.region('%s[]' % q.r.name, PTR, None); r1.kind = 'heap'; r1.dims = [k, m]
                r2 = self.region('%s[][]' % q.r.name, el, None); r2.kind = 'heap'; r2.dims = [k, m, n]; self.cache[kk] = r2
                self.pre.mem[(q.r, q.key())] = Content(Ptr(r1, (('d', K[0]), ('d', IntVal(0)))), (), 1, True)
                self.pre.mem[(r1, ('*', '*'))] = Content(Ptr(r2, (('d', K[0]), ('d', K[1]), ('d', IntVal(0)))), (), 2, True)
                self.pre.freed[r1] = FALSE; self.pre.freed[r2] = FALSE
            r2 = self.cache[kk]
            return Cube(self, lambda i, j: Ptr(r2, (('d', toz(i)), ('d', toz(j)), ('d', IntVal(0)))), el, 'pre')
        st = self.state(view.which); ct = self.eng.content(st, q.r, q.key(), 'ptr')
        i, j = z3.Ints('crow! crow2!'); p1 = ct.read(view.ptr(i).idx())
        if not isinstance(p1, Ptr): raise ContractError('rows of %s' % self.name)
        ct2 = lambda p: self.eng.content(st, p.r, p.key(), 'ptr')
        def row2(i, j):
            p = ct.read(view.ptr(i).idx()); p = Ptr(p.r, p.p[:-1] + (('d', simplify(p.p[-1][1] + j)),))
            return ct2(p).read(p.idx())
        inr = And(i >= 0, i < k, j >= 0, j < m)
        self.typed(p1, PTR); self.typed(row2(i, j), el)
        self.side.append(z3.ForAll([i], Implies(And(i >= 0, i < k), self.validcond(p1, m, st))))
        self.side.append(z3.ForAll([i, j], Implies(inr, self.validcond(row2(i, j), n, st))))
        return Cube(self, row2, el, view.which)

    # ---- clauses
    def requires(self, e, name=''):
        e = toz(e)
        self.reqs.append((name, e))
        if self.mode == 'verify': self.pre.fact(e)
        else:
            e2 = And(e, *self.side) if self.side else e
            self.side = []
            self.eng.oblige(self.pre, e2, 'requires-of-callee', '%s: %s' % (self.name, name))
    def requires_each(self, view, n, fn, name=''):
        """every element of a parameter array satisfies fn; instances are made available where elements are read"""
        n = toz(n); a = view.data if isinstance(view, VecV) else view
        self.requires(forall(0, n, lambda k: fn(a[k])), name)
        if self.mode == 'verify' and isinstance(a.p, Ptr):
            q = a.cell(); base = q.p[-1][1] if isinstance(q.p[-1], tuple) else IntVal(0)
            f = a[z3.Int('ef!')]
            ini = f.decl() if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if ini is None: return
            self.eng.elemfacts[a.p.r] = lambda i, v: Implies(And(i >= 0, i < n), fn(v)) if v.decl().eq(ini) else BoolVal(True)
    def flush_side(self):
        if self.mode == 'call' and self.side:
            e = And(*self.side); self.side = []
            self.eng.oblige(self.pre, e, 'requires-of-callee', '%s: valid members' % self.name)
    def assume_type(self, e): self.pre.fact(e)
    def ensures(self, name, fn):
        self.enss.append((name, fn))
    def result(self, e):
        self.res = toz(e)
    def result_ptr(self, view):
        """the function returns a pointer to this array"""
        self.resp = view.p
    def result_new(self, ty):
        """the function returns a pointer to a new object of its own, described by the postcondition through retobj()"""
        self.resnew = ty
    def retobj(self):
        return ObjV(self, self.norm(self.retv, self.eng.mod.layout(self.resnew)), self.resnew, 'post')
    def assigns(self, view, fn=None, lo=0, n=None):
        """view[lo..lo+n) becomes fn(k) (None: unspecified); other elements keep their value"""
        if isinstance(view, VecV) and isinstance(view.el, VEC):
            if fn is not None: raise ContractError('assigns of nested vectors needs fn=None')
            inner = view[K[len(view.data.p.idx()) - 1]]
            self.eff.append((SizeCell(inner), None, None, None)); self.assigns(inner); return
        if isinstance(view, (Matrix, Cube)): self.eff.append((view, fn, None, tuple(toz(x) for x in n))); return
        self.eff.append((view, fn, toz(lo), toz(n) if n is not None else None))
    def sets(self, o, name, e):
        p, t = o.field(name)
        if z3.is_expr(e) and e.sort() == B: e = If(e, IntVal(1), IntVal(0))
        self.eff.append((Cell(self, p, t), (lambda: toz(e)) if e is not None else None, None, None))
    def free_fields(self, o, names):
        for f in names:
            p, t = o.field(f)
            if t == PTR and self.mode == 'verify' and (p.r, p.key()) not in self.pre.mem:
                r = Region('%s.%s!old' % (o.p.r.name, f), None, IntVal(0), undef=False); r.kind = 'heap'; r.encl = ()
                self.pre.mem[(p.r, p.key())] = Content(Ptr(r, (('d', IntVal(0)),)), (), p.key().count('*'), True)
                self.pre.freed[r] = FALSE
            self.sets(o, f, None)
    def allocated(self, o, name, n, el=DOUBLE):
        o.arr(name, el, n)
        return [TRUE]
    def setsize(self, v, n):
        self.eff.append((SizeCell(v), (lambda: toz(n)) if n is not None else None, None, None))
    def throws(self, cond): self.thr = toz(cond)
    def hint(self, **kw): self.hints.append(Hint(**kw))
    def hint_array(self, view, fn, name=None, depth=0):
        """candidate closed form of view[k] after `it` iterations of a loop: fn(it, k, entry) """
        if isinstance(view, VecV): view = view.data
        if self.mode != 'verify': return
        def closed(eng, fr, L, lvs, st0, it):
            if fr.depth > depth: return None
            out = {}
            q = eng.leafptr(self.pre, view.p, view.el)
            for lv in lvs:
                if lv.kind == 'mem' and lv.id == (q.r, q.key()):
                    d = len(view.p.idx()) - 1
                    idx = q.idx()
                    cond = conj([K[i] == t for i, t in enumerate(idx) if i != d])
                    entry = lambda k: lv.init.read([t if i != d else idx[d] + k for i, t in enumerate(idx)])
                    val = fn(it, simplify(K[d] - idx[d]), entry)
                    if val is not None: out[lv.id] = Content(lv.init.base, lv.init.ups + ((cond, val),), lv.n)
            return out
        self.hints.append(Hint(closed=closed))
    def hint_cell(self, o, name, fn, depth=0):
        """candidate closed form of a scalar member after `it` iterations: fn(it)"""
        if self.mode != 'verify': return
        p, t = o.field(name)
        def closed(eng, fr, L, lvs, st0, it):
            if fr.depth > depth: return None
            return {lv.id: toz(fn(it)) for lv in lvs if lv.kind == 'cell' and lv.id == (p.r, p.key())}
        self.hints.append(Hint(closed=closed))
    def hint_inv(self, fn):
        """candidate invariants: fn(eng, fr, L, lvs, st0, it) -> [(name, formula)]"""
        self.hints.append(Hint(inv=fn))
    def loop_inv(self, name, fn, depth=0, top=True):
        """candidate invariant fn(it) of the (outermost) loops, over .loop views"""
        if self.mode != 'verify': return
        def inv(eng, fr, L, lvs, st0, it):
            if fr.depth > depth or (top and (L.parent is not None)): return []
            r = fn(it)
            return [] if r is None else [(name, r)]
        self.hints.append(Hint(inv=inv))
    def local_inv(self, name, fn, depth=0):
        """candidate invariant fn(loc, it) of loops, over local variables by their source name; loc.mods: locals written by the loop"""
        if self.mode != 'verify': return
        def inv(eng, fr, L, lvs, st0, it):
            if fr.depth > depth: return []
            loc = Locals(self, fr, lvs)
            try: r = fn(loc, it)
            except KeyError: r = None
            return [] if r is None else [(name, r)]
        self.hints.append(Hint(inv=inv))
    def local_cut(self, var, fn, el=None, depth=0):
        """at loop entries where every element of [0, n) of local array `var` can be proved equal to val(k), with
        (n, val) = fn(loc), continue with that description of the contents (a proved rewriting, nothing assumed)"""
        if self.mode != 'verify': return
        el = el or DOUBLE
        def cut(eng, fr, L, st0):
            if fr.depth > depth: return None
            eng.loopst = st0
            loc = Locals(self, fr, [])
            try:
                p = loc.ptr(var)
                if isinstance(p, (PNull, PIte)): return None
                r = fn(loc)
                return None if r is None else (loc.arr(var, el), r[0], r[1])
            except KeyError: return None
        self.hints.append(Hint(cut=cut))
    def let(self, name, sort, defn, why, term=None):
        """spec constant defined by a formula known to have a solution (mathematical fact `why`); term: the constant as an
        application of a mathematical function to everything the definition depends on"""
        v = term if term is not None else z3.Const('%s@%s' % (name, self.name.split('(')[0]), sort) if self.mode == 'verify' else self.eng.sym('%s@%s@%s' % (name, self.name.split('(')[0], self.eng.where), sort)
        self.pre.fact(defn(v))
        self.eng.assumptions.add('definition: ' + why)
        return v
    def free(self, view):
        self.free_regions.append(view.p.r)
    def fold(self, callee, view, n, fn, name):
        """name the values fn(k), k in [0, n): returns the function to use in the rest of the contract. Where the code is
        verified, the array `view` is rewritten to that name after calls of `callee`, once proved equal to fn there."""
        if self.mode != 'verify': return fn
        f = z3.Function('%s@def' % name, I, R)
        self.folds.append((callee, view, toz(n), fn, f)); self.eng.folds = self.folds
        return lambda k: f(toz(k))
    def ignore(self, *callees):
        """use only the preconditions and frames of these callees (less is known: sound)"""
        if self.mode == 'verify': self.eng.weak = callees
    def nameit(self, callee, view, n, name):
        """definitional extension: from the call of `callee` on, elements [0, n) of the array are a fresh name, defined to be their present values"""
        if self.mode != 'verify': return
        self.folds.append((callee, view, toz(n), None, name)); self.eng.folds = self.folds
    unroll_o = False; opaque_n = ()
    def keep_sums(self):
        """keep facts about sums of inner loops after the enclosing loop"""
        if self.mode == 'verify': self.eng.keepsums = True
    def opaque(self, *names):
        """contents of these arrays after a loop are left unspecified (sound: only less is known); nothing below depends on them"""
        self.opaque_n = names
    def unroll(self, n, outer=False): self.unroll_n = n; self.unroll_o = outer
    def ret(self): return self.retv

class Locals:
    def __init__(self, c, fr, lvs):
        self.c, self.fr = c, fr
        self.st = c.eng.loopst
        self.mods = set(); self.phis = {}; self.wr = set()
        for lv in lvs:
            if lv.kind in ('mem', 'cell', 'pmem'): self.wr.add(lv.id[0])
        back = {x: n for n, l in fr.fn.vars.items() for x in l}
        import re
        for n, l in fr.fn.vars.items():
            for x in l:
                if re.sub(r'[0-9]*(\.[0-9]+)?$', '', x) == n: back[x] = n     # SSA names derive from the source name
        for lv in lvs:
            if lv.kind == 'phi' and lv.id in back: self.phis[back[lv.id]] = lv.id
        for lv in lvs:
            if lv.kind == 'phi' and not lv.id in back: self.phis[lv.id.rstrip('0123456789').rstrip('.').rstrip('0123456789')] = lv.id; self.phis[lv.id] = lv.id
        for lv in lvs:
            if lv.kind in ('mem', 'cell', 'pmem'): self.mods.add(lv.id[0].name.split('.')[-1])
    def ptr(self, name):
        for v in [name] + self.fr.fn.vars.get(name, []):
            p = self.st.env.get((self.fr.path, v))
            if isinstance(p, Ptr): return p
        raise KeyError(name)
    def arr(self, name, el=DOUBLE): return ArrV(self.c, self.ptr(name), el, 'loop')
    def writes(self, name): return self.ptr(name).r in self.wr
    def vec(self, name, el): return VecV(self.c, self.ptr(name), el, 'loop')
    def phi(self, name):
        """value of the local scalar at the head of the loop"""
        if name not in self.phis: raise KeyError(name)
        return self.st.env[(self.fr.path, self.phis[name])]

    def outer(self, name):
        """present value of a local scalar that an enclosing loop advances"""
        import re
        from .loops import mentions
        nm = {e.decl().name() for e in self.c.eng.encl}; path = self.fr.path
        for (p, v), x in self.st.env.items():
            if p != path or not z3.is_expr(x) or not (v in self.fr.fn.vars.get(name, []) or re.sub(r'[0-9]*(\.[0-9]+)?$', '', v) == name): continue
            if z3.is_const(x) and x.decl().name().endswith('!' + v) or mentions(x, nm): return x
        raise KeyError(name)

class SizeCell:
    def __init__(self, v): self.v = v

class Hint:
    def __init__(self, closed=None, inv=None, cut=None):
        self.closed = closed; self.inv = inv; self.cut = cut

# --------------------------------------------------------------------------
def eff_target(eng, c, e):
    """(region, key, cond over K, value over K, nK)"""
    view, fn, lo, n = e
    if isinstance(view, SizeCell):
        p = view.v.p; key = p.key() + ('#',)
        cond = conj([K[i] == t for i, t in enumerate(p.idx())])
        return p.r, key, cond, (fn() if fn else None), key.count('*'), I
    if isinstance(view, Cell):
        p = view.p
        cond = conj([K[i] == t for i, t in enumerate(p.idx())])
        leaf = 'ptr' if view.t == PTR else view.t
        return p.r, p.key(), cond, (fn() if fn else None), len(p.idx()), leaf
    if isinstance(view, VecV): view = view.data
    if isinstance(view, Cube):
        i, j = z3.Ints('mrow! mrow2!'); p = view.row2(i, j)
        q = eng.leafptr(c.pre, p, view.el); idx = q.idx()
        if fn or len(idx) != 3 or not simplify(idx[0] - i).eq(IntVal(0)) or not simplify(idx[1] - j).eq(IntVal(0)): raise Unsupported('assigns of these rows')
        return q.r, q.key(), And(K[0] >= 0, K[0] < n[0], K[1] >= 0, K[1] < n[1], K[2] >= idx[2], K[2] < idx[2] + n[2]), None, 3, view.el
    if isinstance(view, Matrix):
        # rows lo..lo+n, n a pair (rows, columns); fn(i, j)
        i = z3.Int('mrow!'); p = view.row(i)
        if not isinstance(p, Ptr) or len(p.p) != 2: raise Unsupported('assigns of this matrix')
        q = eng.leafptr(c.pre, p, view.el); idx = q.idx()
        if len(idx) != 2: raise Unsupported('assigns of this matrix')
        off = simplify(idx[0] - i)
        if any(x.eq(i) for x in walk_all(off)): raise Unsupported('assigns of a matrix with irregular rows')
        a, b = simplify(K[0] - off), simplify(K[1] - idx[1])
        val = fn(a, b) if fn else None
        return q.r, q.key(), And(a >= 0, a < n[0], b >= 0, b < n[1]), (toz(val) if val is not None else None), 2, view.el
    p = view.p
    if isinstance(p, PNull): return None
    guard = []
    while isinstance(p, PIte):
        if isinstance(p.a, PNull): guard.append(Not(p.c)); p = p.b
        elif isinstance(p.b, PNull): guard.append(p.c); p = p.a
        else: raise Unsupported('assigns through PIte')
    q = view.leaf() if isinstance(view, MemV) else eng.leafptr(c.pre, p, view.el) if not isinstance(view.el, (VEC,)) else p
    idx = q.idx()
    d = len(p.idx()) - 1
    base = idx[d]
    kk = K[d]
    cond = guard + [K[i] == t for i, t in enumerate(idx) if i != d]
    if n is not None:
        cond += [kk >= base + lo, kk < base + lo + n]
    val = fn(simplify(kk - base)) if fn else None
    if val is not None: val = toz(val)
    return q.r, q.key(), conj(cond), val, len(idx), view.el

def call_contract(eng, c, st, args, path):
    fn = None
    cname = c.cname
    f = eng.mod.func(cname) if cname in eng.mod.funcs else None
    if f is not None: params = f.params
    else: raise Unsupported('contract of undefined function ' + c.dem)
    ctx = Ctx(eng, st, list(args), params, 'call', c.dem)
    c.spec(ctx)
    ctx.flush_side()
    post = st.fork()
    fresh = itertools.count()
    throws = []
    if ctx.thr is not None:
        t = st.fork()
        if eng.feasible(st, ctx.thr):
            t.br(ctx.thr); throws.append(t)
            post.br(Not(ctx.thr))
            if not eng.feasible(st, Not(ctx.thr)): return [], throws
    for e in ctx.eff:
        tg = eff_target(eng, ctx, e)
        if tg is None: continue
        r, key, cond, val, n, leaf = tg
        old = eng.content(post, r, key, leaf)
        if any(c.dem.startswith(w) for w in eng.weak) and not old.isp: val = None
        if val is None:
            srt = old.expr().sort() if not old.isp else None
            if srt is None:
                # the callee stored a pointer to memory of its own (described by its postcondition)
                nr = Region('%s!%s.%s' % (path, r.name, '.'.join(map(str, key))), None, eng.sym('%s!size.%s' % (path, '.'.join(map(str, key))), I)); nr.encl = tuple(eng.encl); nr.outer = False
                post.freed[nr] = FALSE
                post.mem[(r, key)] = old.update(simplify(cond), Ptr(nr, (('d', IntVal(0)),)))
                continue
            save = eng.encl
            val = eng.symfun('%s!%s.%s' % (path, r.name, '.'.join(map(str, key))), n, srt)
        if z3.is_expr(val) and not old.isp:
            o = old.expr()
            if z3.is_expr(o) and o.sort() == I and val.sort() == B: val = If(val, IntVal(1), IntVal(0))
            if z3.is_expr(o) and o.sort() == R and val.sort() == I: val = z3.ToReal(val)
        post.mem[(r, key)] = old.update(simplify(cond), val)
    for p in ctx.rebuilt: havoc_obj(eng, post, p, path)
    ctx.postst = post
    # result
    if f.ret == ('prim', 'void'): rv = None
    elif ctx.res is not None and not any(c.dem.startswith(w) for w in eng.weak): rv = ctx.res
    elif f.ret == PTR and ctx.resp is not None: rv = ctx.resp
    elif f.ret == PTR and ctx.resnew is not None:
        nr = ctx.region('%s@%s' % (path, c.dem), eng.mod.layout(ctx.resnew), IntVal(1)); nr.undef = True; nr.kind = 'heap'; nr.encl = tuple(eng.encl); nr.outer = False
        post.freed[nr] = FALSE; rv = Ptr(nr, (('d', IntVal(0)),))
    elif f.ret == PTR: raise Unsupported('contract returning a pointer')
    else:
        s = eng.sort_of(f.ret)
        rv = eng.sym('%s!ret' % path, s)
        if s == I: post.fact(eng.inrange(rv, int(f.ret[1][1:])))
    ctx.retv = rv
    weak = any(c.dem.startswith(w) for w in eng.weak)
    for name, g in [] if weak else ctx.enss:
        e = g()
        if ctx.side:
            post.fact(And(*ctx.side)); ctx.side = []
        if isinstance(e, bool): e = BoolVal(e)
        post.fact(e)
    if f.ret == ('prim', 'i1') and z3.is_expr(rv) and rv.sort() == I: rv = rv != 0
    return [(post, rv)], throws

def havoc_obj(eng, st, p, path):
    """an object constructed by a callee: nothing is known of its members but the postcondition"""
    if not isinstance(p, Ptr): raise Unsupported('constructed object')
    k0 = p.key(); idx = p.idx()
    cond = conj([K[i] == t for i, t in enumerate(idx)])
    for key in {k for r, k in st.mem if r is p.r} | set(p.r.init):
        if key[:len(k0)] != k0 or key[:1] == ('vecty',): continue
        old = st.mem.get((p.r, key)) or p.r.init[key]
        if old.isp:
            if isinstance(old.base, Undef) and not old.ups: continue
            st.mem[(p.r, key)] = Content(UNDEF, (), old.n, True) if p.r.size is not None and ival(p.r.size) == 1 else old.update(cond, UNDEF)
            continue
        e = old.expr()
        if not z3.is_expr(e): continue
        st.mem[(p.r, key)] = old.update(cond, eng.symfun('%s!%s.%s' % (path, p.r.name, '.'.join(map(str, key))), old.n, e.sort()))

def walk_all(e):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        todo += x.children() if not z3.is_quantifier(x) else [x.body()]


def verify(eng, c):
    """verify one contract against the body of its function"""
    fn = eng.mod.func(c.cname)
    eng.target = c.dem; eng.target_dem = c.dem; eng.elemfacts = {}
    st = State()
    ctx = Ctx(eng, st, [None] * len(fn.params), fn.params, 'verify', c.dem)
    c.spec(ctx)
    if ctx.k != len(fn.params):
        raise ContractError('contract of %s binds %d of %d parameters' % (c.dem, ctx.k, len(fn.params)))
    # vacuity of the precondition
    r, _ = eng.pr.check([h for h in st.hyps() if not has_q(h)], FALSE, 3000)
    if r == 'proved': raise ContractError('contradictory precondition in ' + c.dem)
    eng.vacuity = r
    eng.loop_hints = ctx.hints; eng.unroll = ctx.unroll_n; eng.unroll_outer = ctx.unroll_o; eng.opaque = ctx.opaque_n
    pre = st
    st1 = st.fork()
    # materialise initial contents so that frames can be compared
    rets, throws = eng.run_function(fn, list(ctx.args), st1, eng.short(c.cname), 0)
    if not rets and ctx.thr is None: raise ContractError('no return state is reachable in ' + c.dem)
    where = eng.short(c.cname)
    for s in throws:
        eng.where = where
        if ctx.thr is None:
            eng.oblige(s, FALSE, 'ensures', 'does not throw')
        else:
            eng.oblige(s, ctx.thr, 'ensures', 'throws only when specified')
    reach = 0
    for s, v in rets:
        eng.where = where
        ctx.postst = s; ctx.retv = v
        if ctx.thr is not None:
            eng.oblige(s, Not(ctx.thr), 'ensures', 'throws when specified')
        if ctx.resp is not None: eng.oblige(s, same_ptr(v, ctx.resp), 'ensures', 'returns the pointer')
        if ctx.res is not None:
            res = ctx.res
            if v is None: raise ContractError('no result')
            if z3.is_expr(v) and v.sort() != res.sort():
                if v.sort() == B and res.sort() == I: v = If(v, IntVal(1), IntVal(0))
                elif v.sort() == I and res.sort() == B: v = (v != 0)
                elif v.sort() == R and res.sort() == I: res = z3.ToReal(res)
            eng.oblige(s, v == res, 'ensures', 'result')
        # exact effects + frame
        touched = {}
        for e in ctx.eff:
            tg = eff_target(eng, ctx, e)
            if tg is None: continue
            r, key, cond, val, n, leaf = tg
            if (r, key) not in touched: touched[(r, key)] = []
            touched[(r, key)].append((cond, val, leaf))
        keys = set(k for k in s.mem) | set(touched)
        for (r, key) in sorted(keys, key=lambda x: (x[0].name, str(x[1]))):
            if not r.outer or r.kind in ('const', 'local') or r in ctx.free_regions and (r, key) not in touched: continue
            cur = s.mem.get((r, key)) or r.init.get(key)
            pre_c = pre.mem.get((r, key)) or r.init.get(key)
            if cur is None and (r, key) in touched:
                cur = pre_c = eng.content(pre, r, key, touched[(r, key)][0][2])
            if pre_c is None: continue
            if (r, key) not in touched and cur.same(pre_c): continue
            nm = r.name + ''.join('.%s' % x for x in key if x != '*')
            if cur.isp:
                if (r, key) in touched: continue
                if same(cur.expr(), pre_c.expr()): continue
                eng.oblige(s, FALSE, 'frame', 'pointer %s unchanged' % nm); continue
            sk = [z3.Int('fk!%d' % i) for i in range(cur.n)]
            hy = s.fork()
            p = Ptr(r, tuple(keypath(key, sk)))
            try: bs = eng.bounds(hy, p)
            except Unsupported: bs = []
            for b in bs: hy.fact(b)
            want = pre_c.read(sk)
            free = []
            for cond, val, leaf in touched.get((r, key), []):
                pairs = list(zip(K[:cur.n], sk))
                cd = simplify(substitute(cond, *pairs)) if pairs else cond
                if val is None: free.append(cd); continue
                vv = substitute(val, *pairs) if pairs else val
                if vv.sort() != want.sort():
                    if want.sort() == R and vv.sort() == I: vv = z3.ToReal(vv)
                    elif want.sort() == I and vv.sort() == B: vv = If(vv, IntVal(1), IntVal(0))
                if is_true(cd): want = vv
                else: want = If(cd, vv, want)
            if free: hy.fact(Not(Or(*free)))
            got = cur.read(sk)
            goal = got == want
            kind = 'ensures' if (r, key) in touched else 'frame'
            eng.oblige(hy, goal, kind, ('value of ' if kind == 'ensures' else 'unchanged: ') + nm, where=where)
        for name, g in ctx.enss:
            ctx.side = []
            e = g()
            if isinstance(e, bool): e = BoolVal(e)
            if ctx.side:
                eng.oblige(s, And(*ctx.side), 'ensures', name + ' (valid memory)', where=where)
                ctx.side = []
            eng.oblige(s, e, 'ensures', name, where=where)
        qf = [h for h in s.hyps() if not has_q(h)]
        if eng.pr.check(qf, FALSE, 1500)[0] != 'proved': reach += 1
    if rets and not reach and not all(o.status != 'proved' for o in eng.obls if o.status != 'proved'):
        eng.vacuous = True
    return ctx, reach, len(rets)

def keypath(key, sk):
    i = 0; out = []
    for x in key:
        if x == '*': out.append(('d', sk[i])); i += 1
        else: out.append(x)
    return out
