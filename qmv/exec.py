"""Symbolic execution / verification-condition generation over LLVM IR with
loop summarisation (closed forms guessed, then discharged as obligations) and
modular calls through contracts."""
import z3, time, re, heapq, itertools
from . import ir
from .core import *
from . import prove
from .prove import Prover, uf, has_q, walk_apps

SIZEOF = {'double': 8, 'float': 4, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'ptr': 8, 'x86_fp80': 16}
MAXLEN = 2**30
PTRTY = ('prim', 'ptr')

class Frame:
    def __init__(self, fn, path, depth):
        self.fn = fn; self.path = path; self.depth = depth

class Outs:
    def __init__(self):
        self.back = []; self.exits = []; self.rets = []; self.throws = []
    def absorb(self, o):
        self.rets += o.rets; self.throws += o.throws

class Obl:
    __slots__ = ('fn', 'kind', 'where', 'text', 'status', 'time', 'model')
    def __init__(self, fn, kind, where, text, status, t, model=None):
        self.fn = fn; self.kind = kind; self.where = where; self.text = text; self.status = status; self.time = t; self.model = model

class Engine:
    def __init__(self, mod, contracts=None, timeout=8000, opts=None):
        self.mod = mod
        self.contracts = contracts or {}
        self.pr = Prover(timeout)
        self.obls = []
        self.dry = 0
        self.encl = []
        self.dem = ir.demangle(list(mod.funcs) )
        self.target = None
        self.opts = opts or {}
        self.cnt = itertools.count()
        self.globals = {}
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.loopinfo = []
        self.loop_hints = []     # from the contract being verified
        self.statics = {}
        self.maxdepth = 14
        self.unroll = 0; self.unroll_outer = False; self.opaque = (); self.folds = []; self.weak = (); self.keepsums = False
        self.target_dem = None
        self.where = ''
        self.int_bounds = True
        self.vsizes = {}; self.autonames = set()

    # ------------------------------------------------------------ symbols
    def sym(self, name, sort):
        if self.encl:
            return z3.Function(name, *([I] * len(self.encl)), sort)(*self.encl)
        return z3.Const(name, sort)

    def symfun(self, name, n, sort):
        """base expression over K[0..n) (+ enclosing iterations)"""
        args = list(K[:n]) + list(self.encl)
        if not args: return z3.Const(name, sort)
        return z3.Function(name, *([I] * len(args)), sort)(*args)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, text='', where=None):
        """prove goal under st; record; then assume it"""
        goal = toz(goal)
        g = simplify(goal)
        if is_true(g): 
            if not self.dry and kind in ('ensures', 'frame', 'requires-of-callee', 'invariant', 'loop-closed-form'):
                self.obls.append(Obl(self.target, kind, where or self.where, text, 'proved', 0.0))
            return True
        if self.dry:
            st.fact(goal); return True
        t = time.time()
        r = None
        if kind in ('bounds', 'overflow', 'divzero', 'range', 'null'):
            if self.pr.quick(st.hyps(), goal): r = ('proved', None)
        if r is None:
            self.pr.deadline = time.process_time() + prove.SCALE[0] * self.opts.get('limit', 60)
            r = self.pr.prove(st.hyps(), goal)
            self.pr.deadline = None
        dt = time.time() - t
        self.obls.append(Obl(self.target, kind, where or self.where, text, r[0], dt, str(r[1])[:4000] if r[1] is not None else None))
        if self.opts.get('verbose') and (r[0] != 'proved' or dt > 2):
            print('   [%s] %s %s %s (%.2fs)' % (r[0], kind, where or self.where, text, dt), flush=True)
            if self.opts.get('verbose') > 1 and r[0] != 'proved':
                print('   goal:', goal)
                for h in st.hyps(): print('     hyp:', h)
                if r[1] is not None: print('     model:', str(r[1])[:1500])
        st.fact(goal)
        return r[0] == 'proved'

    def implied(self, st, c):
        c = simplify(c)
        if is_true(c): return True
        if is_false(c): return False
        return self.pr.quick(st.hyps(), c)

    def feasible(self, st, c):
        c = simplify(c)
        if is_false(c): return False
        if is_true(c): return True
        return not self.pr.quick(st.hyps(), Not(c))

    # ------------------------------------------------------------ types
    def rtype(self, ty): return self.mod.resolve(ty)

    def is_vec(self, ty):
        return ty is not None and ty[0] == 'named' and ty[1].startswith('class.std::vector')

    def sizeof(self, ty):
        if ty[0] == 'prim': return SIZEOF[ty[1]]
        if ty[0] == 'arr': return ty[1] * self.sizeof(ty[2])
        if ty[0] == 'named':
            return self.sizeof(self.rtype(ty))
        if ty[0] == 'struct':
            off = 0; al = 1
            packed = len(ty) > 2
            for f in ty[1]:
                a = 1 if packed else self.alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(f)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % (ty,))

    def sizeof_safe(self, ty):
        try: return self.sizeof(ty)
        except Unsupported: return None

    def alignof(self, ty):
        if ty[0] == 'prim': return SIZEOF[ty[1]]
        if ty[0] == 'arr': return self.alignof(ty[2])
        if ty[0] == 'named': return self.alignof(self.rtype(ty))
        if ty[0] == 'struct':
            if len(ty) > 2: return 1
            return max([self.alignof(f) for f in ty[1]] or [1])
        raise Unsupported('alignof')

    def sort_of(self, ty):
        if ty[0] == 'prim':
            if ty[1] in ('double', 'float'): return R
            if ty[1] == 'i1': return B
            if ty[1][0] == 'i': return I
        raise Unsupported('sort of %r' % (ty,))

    def ty_of(self, st, p):
        """type of the object designated by Ptr p (None when unknown)"""
        r = p.r
        ty = r.ty
        nd = len(r.dims) if r.dims else 1
        k = nd
        key = p.key()
        while k < len(p.p):
            if ty is None: return None
            x = p.p[k]
            if x == 'v':
                ty = r.init.get(('vecty',) + key[:k])
                ty = ('vecdata', ty)
            elif isinstance(x, tuple):
                if ty[0] == 'vecdata': ty = ty[1]
                elif ty[0] == 'arr': ty = ty[2]
                else: raise Unsupported('dynamic index into %r' % (ty,))
            elif x == '#':
                ty = ('prim', 'i64')
            else:
                t = self.rtype(ty)
                if t[0] != 'struct': raise Unsupported('field of %r' % (ty,))
                ty = t[1][x]
            k += 1
        return ty

    # ------------------------------------------------------------ memory
    def content(self, st, r, key, leaf):
        k = (r, key)
        c = st.mem.get(k)
        if c is not None: return c
        c = r.init.get(key)
        if c is None:
            n = sum(1 for x in key if x == '*')
            nm = '%s%s' % (r.name, ''.join('.%s' % x for x in key if x != '*'))
            if isinstance(leaf, str) or (isinstance(leaf, tuple) and leaf == PTRTY):
                if getattr(r, 'zero', False): c = Content(NULL, (), n, True)
                elif not r.undef: raise Unsupported('unknown pointer cell %s' % nm)
                else: c = Content(UNDEF, (), n, True)
            elif getattr(r, 'zero', False):
                sort = leaf if isinstance(leaf, z3.SortRef) else self.sort_of(leaf)
                c = Content(RealVal(0) if sort == R else IntVal(0), (), n)
            else:
                sort = leaf if isinstance(leaf, z3.SortRef) else self.sort_of(leaf)
                if sort == B: sort = I
                save = self.encl; self.encl = list(r.encl)
                c = Content(self.symfun(nm + ('!undef' if r.undef else ''), n, sort), (), n)
                self.encl = save
            r.init[key] = c
        return c

    def leafptr(self, st, p, ty):
        """descend to the first leaf when p designates an aggregate"""
        while True:
            if p.r.ty is None:
                self.set_type(p.r, ty)
            t = self.ty_of(st, p)
            if t is None: return p
            rt = self.rtype(t)
            if rt[0] == 'struct' and not self.is_vec(t):
                p = Ptr(p.r, p.p + (0,))
            elif rt[0] == 'arr':
                p = Ptr(p.r, p.p + (('d', IntVal(0)),))
            else:
                return p

    def set_type(self, r, ty):
        r.ty = ty
        if r.size is None and r.bytes is not None:
            sz = self.sizeof(ty)
            b = r.bytes
            r.size = divexact(b, sz)
        if getattr(r, 'bytesf', None) and r.dims[-1] is None:
            sz = self.sizeof(ty); g = r.bytesf
            r.dims[-1] = lambda *idx: divexact(g(*idx), sz)

    def bounds(self, st, p, extra=0, what='access'):
        """list of conditions for p to designate an existing element"""
        r = p.r
        out = []
        nd = len(r.dims) if r.dims else 1
        dyn = 0
        key = p.key()
        ty = r.ty
        for k, x in enumerate(p.p):
            if isinstance(x, tuple):
                if k < nd:
                    sz = r.dims[k] if r.dims else r.size
                    if callable(sz): sz = sz(*[y[1] for y in p.p[:k]])
                elif p.p[k-1] == 'v':
                    sz = self.vsize(st, Ptr(r, p.p[:k-1]))
                else:
                    t = self.ty_of(st, Ptr(r, p.p[:k]))
                    sz = IntVal(t[1])
                if sz is None and k == nd - 1 and getattr(r, 'bytesf', None): raise Unsupported('extent of ' + r.name)
                if sz is not None:
                    out.append(x[1] >= 0); out.append(x[1] < sz)
        return out

    def vsize(self, st, p):
        c = self.content(st, p.r, p.key() + ('#',), I)
        s = c.read(p.idx())
        sid = (p.r.name, s.get_id())
        if not z3.is_int_value(s):
            st.fact(s >= 0); st.fact(s <= MAXLEN)
            self.assumptions.add('container sizes and array lengths are at most 2^30')
            self.pr.log.append(s)
        return s

    def set_vsize(self, st, p, n):
        c = self.content(st, p.r, p.key() + ('#',), I)
        st.mem[(p.r, p.key() + ('#',))] = c.store(p.idx(), n)

    def access(self, st, p, ty, what):
        if isinstance(p, PNull): 
            self.oblige(st, FALSE, 'null', 'null dereference'); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('%s through %r' % (what, p))
        p = self.leafptr(st, p, ty)
        if p.r.kind == 'const' and what == 'store':
            self.oblige(st, FALSE, 'frame', 'write to constant ' + p.r.name)
        bs = self.bounds(st, p)
        if bs:
            self.oblige(st, And(*bs), 'bounds', '%s of %s' % (what, p.r.name + ''.join('.%s' % x for x in p.key()[1:] if x != '*')))
        fr = st.freed.get(p.r)
        if fr is not None:
            self.oblige(st, Not(fr), 'liveness', 'use of released memory ' + p.r.name)
        return p

    def load(self, st, p, ty):
        if isinstance(p, PIte):
            sa = st.fork(); sa.br(p.c); sb = st.fork(); sb.br(Not(p.c))
            va = self.load(sa, p.a, ty) if self.feasible(st, p.c) else None
            vb = self.load(sb, p.b, ty) if self.feasible(st, Not(p.c)) else None
            if va is None: return vb
            if vb is None: return va
            return ite(p.c, va, vb)
        p = self.access(st, p, ty, 'load')
        if ty == ('prim', 'ptr'):
            c = self.content(st, p.r, p.key(), 'ptr')
            return c.read(p.idx())
        if ty[0] != 'prim': raise Unsupported('load of aggregate %r' % (ty,))
        lt = self.ty_of(st, p)
        c = self.content(st, p.r, p.key(), ty)
        v = c.read(p.idx())
        if isinstance(v, Undef) or isptr(v): raise Unsupported('type-punned load')
        srt = self.sort_of(ty)
        if srt == B: srt = I
        if v.sort() != srt:
            raise Unsupported('load sort mismatch at %r' % p)
        if srt == I and not z3.is_int_value(v):
            w = int(ty[1][1:])
            if w == 8: st.fact(And(v >= 0, v <= 255)) if lt == ('prim', 'i8') and False else None
            st.fact(And(v >= -2**(w-1), v < 2**(w-1)))
        v = simplify(v) if size_small(v) else v
        f = self.elemfacts.get(p.r)
        if f and z3.is_app(v) and v.num_args() > 0 and p.r.init.get(p.key()) is not None:
            # instance of an element-wise precondition at the element read
            st.fact(f(p.idx()[-1], v) if v.decl().kind() == z3.Z3_OP_UNINTERPRETED else TRUE)
        return v

    elemfacts = {}
    def store(self, st, p, ty, v):
        if isinstance(p, PIte):
            ca = p.c
            for c, q in ((p.c, p.a), (Not(p.c), p.b)):
                if not self.feasible(st, c): continue
                s2 = st.fork(); s2.br(c)
                q = self.access(s2, q, ty, 'store')
                old = self.content(st, q.r, q.key(), 'ptr' if ty == ('prim', 'ptr') else ty)
                cond = conj([c] + [K[i] == t for i, t in enumerate(q.idx())])
                st.mem[(q.r, q.key())] = old.update(cond, v)
            return
        p = self.access(st, p, ty, 'store')
        isp = ty == ('prim', 'ptr')
        c = self.content(st, p.r, p.key(), 'ptr' if isp else ty)
        if isinstance(v, Undef):
            v = self.sym('undef!%s' % self.where, self.sort_of(ty)) if not isp else v
        if z3.is_expr(v) and v.sort() == B: v = If(v, IntVal(1), IntVal(0))
        st.mem[(p.r, p.key())] = c.store(p.idx(), v)

    def keys_under(self, st, r, key):
        """all known keys of region r at or below key"""
        ks = set(k for (rr, k) in st.mem if rr is r and k[:len(key)] == key)
        ks |= set(k for k in r.init if k[:len(key)] == key and k[:1] != ('vecty',))
        return ks

    def leaf_keys(self, ty):
        """relative keys (and leaf types) of all leaves of a plain type"""
        if self.is_vec(ty): return None
        t = self.rtype(ty)
        if t[0] == 'prim': return [((), t)]
        out = []
        if t[0] == 'struct':
            for i, f in enumerate(t[1]):
                sub = self.leaf_keys(f)
                if sub is None: return None
                out += [((i,) + k, l) for k, l in sub]
            return out
        if t[0] == 'arr':
            sub = self.leaf_keys(t[2])
            if sub is None: return None
            return [(('*',) + k, l) for k, l in sub]
        return None

    # copy n elements from p to q (both end in a dynamic index)
    def copy_range(self, st, q, p, n, check=True):
        if check:
            for z, what in ((q, 'store'), (p, 'load')):
                if isinstance(z, PNull):
                    self.oblige(st, n <= 0, 'null', 'copy through null'); return
                last = Ptr(z.r, z.p[:-1] + (('d', z.p[-1][1] + n - 1),))
                self.oblige(st, Implies(n > 0, And(*(self.bounds(st, z) + self.bounds(st, last)))), 'bounds', 'range %s of %s' % (what, z.r.name))
        ks = self.keys_under(st, p.r, p.key()) | set()
        kd = self.keys_under(st, q.r, q.key())
        rel = set(k[len(p.key()):] for k in ks) | set(k[len(q.key()):] for k in kd)
        tp = self.ty_of(st, p)
        if tp is not None:
            lk = self.leaf_keys(tp)
            if lk: rel |= set(k for k, _ in lk)
        leaf = dict(self.leaf_keys(tp) or []) if tp is not None else {}
        d = len(q.idx()) - 1
        for rk in rel:
            lt = leaf.get(rk)
            ck = self.content(st, p.r, p.key() + rk, lt or R)
            src = ck
            old = self.content(st, q.r, q.key() + rk, lt or (R if not ck.isp else 'ptr'))
            # K layout: leading dynamic indices, then the copied one, then deeper ones
            nq = len(q.idx()); np_ = len(p.idx())
            inner = old.n - nq
            qi = q.idx(); pi = p.idx()
            kk = K[nq - 1]
            cond = conj([K[i] == qi[i] for i in range(nq - 1)] + [kk >= qi[-1], kk < qi[-1] + n])
            idx = pi[:-1] + [pi[-1] + (kk - qi[-1])] + [K[nq + i] for i in range(inner)]
            val = src.read(idx)
            st.mem[(q.r, q.key() + rk)] = old.update(cond, val)

    def fill_range(self, st, q, n, v, check=True):
        if check and not isinstance(q, PNull):
            last = Ptr(q.r, q.p[:-1] + (('d', q.p[-1][1] + n - 1),))
            self.oblige(st, Implies(n > 0, And(*(self.bounds(st, q) + self.bounds(st, last)))), 'bounds', 'range store of ' + q.r.name)
        rel = set(k[len(q.key()):] for k in self.keys_under(st, q.r, q.key()))
        t = self.ty_of(st, q)
        leaf = dict(self.leaf_keys(t) or []) if t is not None else {}
        rel |= set(leaf)
        for rk in rel:
            lt = leaf.get(rk) or (v.sort() if z3.is_expr(v) else R)
            c = self.content(st, q.r, q.key() + rk, 'ptr' if lt == ('prim', 'ptr') else lt)
            qi = q.idx(); kk = K[len(qi) - 1]
            cond = conj([K[i] == qi[i] for i in range(len(qi) - 1)] + [kk >= qi[-1], kk < qi[-1] + n])
            val = v
            if v is None:
                val = NULL if c.isp else (RealVal(0) if self.sort_of(lt) == R else IntVal(0))
            st.mem[(q.r, q.key() + rk)] = c.update(cond, val)

    # ------------------------------------------------------------ values
    def val(self, fr, st, v, ty):
        k = v[0]
        if k == 'loc':
            x = st.env.get((fr.path, v[1]))
            if x is None: raise Unsupported('undefined value %%%s in %s' % (v[1], fr.path))
            return x
        if k == 'int':
            if ty == ('prim', 'i1'): return BoolVal(v[1] != 0)
            return IntVal(v[1])
        if k == 'fp': 
            if v[1] != v[1] or v[1] in (float('inf'), float('-inf')):
                return z3.Const('inf' if v[1] > 0 else ('-inf' if v[1] < 0 else 'nan'), R)
            return fpval(v[1])
        if k == 'bool': return BoolVal(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            if ty[0] == 'prim': return NULL if ty[1] == 'ptr' else (RealVal(0) if self.sort_of(ty) == R else IntVal(0))
            return UNDEF
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cgep':
            base = self.val(fr, st, v[2], ('prim', 'ptr'))
            return self.gep(fr, st, v[1], base, [(t, self.val(fr, st, x, t)) for t, x in v[3]])
        if k == 'agg':
            return Agg([self.val(fr, st, x, t) for t, x in v[1]])
        raise Unsupported('constant %r' % (v,))

    def glob(self, st, name):
        if name in self.globals: return self.globals[name]
        if name in self.mod.funcs:
            return FnPtr(name)
        txt = self.mod.globals.get(name)
        if txt is None:
            return FnPtr(name)
        m = re.match(r'.*?\b(constant|global)\s+(.*)$', txt)
        if not m:
            raise Unsupported('global ' + name)
        isc = m.group(1) == 'constant'
        p = ir.P(ir.tokenize(m.group(2)))
        ty = p.type()
        r = Region('glob!' + name, ty, IntVal(1))
        r.kind = 'const' if isc else 'global'
        r.encl = ()
        if not p.done() and p.peek()[1] not in (',',):
            try:
                v = p.value(ty)
                self.init_const(r, ('*',), ty, v)
            except ir.IRError:
                pass
        ptr = Ptr(r, (('d', IntVal(0)),))
        self.globals[name] = ptr
        return ptr

    def init_const(self, r, key, ty, v):
        t = self.rtype(ty)
        if t[0] == 'arr':
            et = t[2]
            ert = self.rtype(et)
            if ert[0] == 'prim' and ert[1] not in ('ptr',):
                n = t[1]
                if v[0] == 'zero':
                    z = RealVal(0) if self.sort_of(ert) == R else IntVal(0)
                    r.init[key + ('*',)] = Content(z, (), key.count('*') + 1)
                elif v[0] == 'agg':
                    d = key.count('*')
                    z = RealVal(0) if self.sort_of(ert) == R else IntVal(0)
                    r.init[key + ('*',)] = Content(z, [(K[d] == i, self.val(None, None, x, et)) for i, (_, x) in enumerate(v[1])], d + 1)
        elif t[0] == 'struct' and v[0] == 'agg' and r.name.startswith('glob!_ZTV'):
            # virtual function tables
            for i, (ft, x) in enumerate(v[1]):
                if x[0] != 'agg': continue
                d = key.count('*')
                r.init[key + (i, '*')] = Content(NULL, [(K[d] == j, FnPtr(y[1])) for j, (_, y) in enumerate(x[1]) if y[0] == 'glob'], d + 1, True)
        elif t[0] == 'prim' and t[1] != 'ptr':
            r.init[key] = Content(self.val(None, None, v, t), (), key.count('*'))

    def gep(self, fr, st, bt, base, idx):
        if isinstance(base, PIte):
            return mkpite(base.c, self.gep(fr, st, bt, base.a, idx), self.gep(fr, st, bt, base.b, idx))
        if isinstance(base, PNull): 
            if all(ival(i) == 0 for _, i in idx): return NULL
            return NULL      # any access through it is refuted as a null dereference
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        r = base.r
        if r.ty is None:
            self.set_type(r, bt)
        p = base
        i0 = idx[0][1]
        t = self.ty_of(st, p)
        # descend to an element of the source type
        if bt != ('prim', 'i8') or (t == ('prim', 'i8')):
            n = 0
            while t is not None and not self.same_type(t, bt) and n < 6:
                rt = self.rtype(t)
                if rt[0] == 'struct' and not self.is_vec(t): p = Ptr(r, p.p + (0,))
                elif rt[0] == 'arr': p = Ptr(r, p.p + (('d', IntVal(0)),))
                else: break
                t = self.ty_of(st, p); n += 1
        v0 = ival(i0)
        if v0 != 0:
            if bt == ('prim', 'i8') and t != ('prim', 'i8'):
                q = self.byte_field(p, t, v0) if v0 is not None and v0 > 0 and len(idx) == 1 else None
                if q is None: raise Unsupported('byte-wise pointer arithmetic')
                return q
            # strip a trailing chain of zero fields if p is first member of an array element
            if not isinstance(p.p[-1], tuple):
                raise Unsupported('pointer arithmetic on a scalar member')
            p = Ptr(r, p.p[:-1] + (('d', simplify(p.p[-1][1] + i0)),))
        cur = bt
        for ty, ix in idx[1:]:
            rt = self.rtype(cur)
            if rt[0] == 'struct':
                f = ival(ix)
                p = Ptr(r, p.p + (f,)); cur = rt[1][f]
            elif rt[0] == 'arr':
                p = Ptr(r, p.p + (('d', ix),)); cur = rt[2]
            else:
                raise Unsupported('gep into %r' % (cur,))
        return p

    def byte_field(self, p, t, off):
        """the member of the struct at p that starts at constant byte offset off"""
        while t is not None:
            rt = self.rtype(t)
            if rt[0] != 'struct' or self.is_vec(t): return None
            o = 0; hit = None
            for i, f in enumerate(rt[1]):
                a = 1 if len(rt) > 2 else self.alignof(f)
                o = (o + a - 1) // a * a
                if o > off: break
                hit = (i, f, o); o += self.sizeof(f)
            if hit is None: return None
            if off - hit[2] >= self.sizeof(hit[1]):      # padding of the struct: no member
                r = Region('padding', ('prim', 'i32'), IntVal(1), undef=True); r.encl = tuple(self.encl); r.outer = False
                return Ptr(r, (('d', IntVal(0)),)) if (off - hit[2]) % 4 == 0 else None
            p = Ptr(p.r, p.p + (hit[0],)); t = hit[1]; off -= hit[2]
            if off == 0: return p
        return None

    def same_type(self, a, b):
        if a == b: return True
        if a[0] == b[0] == 'named' and a[1].removesuffix('.base') == b[1].removesuffix('.base'): return True     # a base class subobject, tail padding reused
        return False

    # ------------------------------------------------------------ running
    def run_function(self, fn, args, st, path, depth):
        """returns (list of (state, value)), list of throwing states"""
        if depth > self.maxdepth: raise Unsupported('inlining too deep: ' + path)
        fr = Frame(fn, path, depth)
        for (t, nm, sret), a in zip(fn.params, args):
            st.env[(path, nm)] = a
        outs = self.run_region(fr, None, fn.order[0], st, None)
        rets = []
        for s, v in outs.rets:
            for k in [k for k in s.env if k[0] == path]: del s.env[k]
            rets.append((s, v))
        for s in outs.throws:
            for k in [k for k in s.env if k[0] == path]: del s.env[k]
        rets = self.merge_rets(rets)
        return rets, outs.throws

    def merge_rets(self, rets):
        out = []
        for s, v in rets:
            done = False
            for i, (s2, v2) in enumerate(out):
                try:
                    a = s2.fork(); b = s.fork()
                    if v is not None:
                        a.env[('ret!', '')] = v2; b.env[('ret!', '')] = v
                    m = merge_states(a, b)
                    nv = m.env.pop(('ret!', ''), None)
                    if isinstance(nv, PIte): continue_merge = True
                    out[i] = (m, nv); done = True
                    break
                except Unsupported:
                    continue
            if not done: out.append((s, v))
        return out

    def merge_list(self, sts):
        out = []
        for s in sts:
            done = False
            for i, s2 in enumerate(out):
                try:
                    out[i] = merge_states(s2, s); done = True; break
                except Unsupported:
                    continue
            if not done: out.append(s)
        return out

    def run_region(self, fr, L, start, st, prev):
        fn = fr.fn
        outs = Outs()
        pending = {start: [(st, prev)]}
        heap = [(fn.rpo[start], start)]
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            lst = pending.pop(b, None)
            if not lst: continue
            blk = fn.blocks[b]
            if not (first and L is not None):
                for s, p in lst: self.phis(fr, blk, s, p)
            first = False
            sts = self.merge_list([s for s, _ in lst]) if len(lst) > 1 else [lst[0][0]]
            for s in sts:
                self.where = '%s:%s' % (self.short(fn.name), b)
                if b in fn.loops and (L is None or b != L.header):
                    o = self.loop(fr, fn.loops[b], s)
                    outs.absorb(o)
                    nxt = o.exits
                else:
                    nxt = self.run_block(fr, blk, s, outs)
                for s2, frm, to in nxt:
                    if L is not None and to == L.header: outs.back.append((s2, frm))
                    elif L is not None and to not in L.blocks: outs.exits.append((s2, frm, to))
                    else:
                        if to not in pending:
                            pending[to] = []
                            heapq.heappush(heap, (fn.rpo[to], to))
                        pending[to].append((s2, frm))
        return outs

    def short(self, name):
        d = self.dem.get(name, name)
        return d.split('(')[0]

    def phis(self, fr, blk, st, prev):
        vals = []
        for ph in blk.phis:
            for v, b in ph.a:
                if b == prev:
                    vals.append((ph.res, self.val(fr, st, v, ph.ty))); break
            else:
                raise Unsupported('phi without edge')
        for r, v in vals: st.env[(fr.path, r)] = v

    def run_block(self, fr, blk, st, outs):
        """execute a block; returns list of (state, from, to)"""
        cur = [st]
        nxt = []
        for ins in blk.ins:
            new = []
            for s in cur:
                try:
                    new += self.step(fr, blk, ins, s, outs, nxt)
                except PathEnd:
                    pass
            cur = new
            if not cur: break
        return nxt

    def step(self, fr, blk, ins, st, outs, nxt):
        op = ins.op
        path = fr.path
        env = st.env
        V = lambda v, t: self.val(fr, st, v, t)
        if op == 'load':
            self.where = '%s:%s:%s' % (self.short(fr.fn.name), blk.name, ins.res)
            env[(path, ins.res)] = self.load(st, V(ins.a[0], ('prim', 'ptr')), ins.ty)
        elif op == 'store':
            self.where = '%s:%s' % (self.short(fr.fn.name), blk.name)
            v = V(ins.a[0], ins.ty)
            self.store(st, V(ins.a[1], ('prim', 'ptr')), ins.ty, v)
        elif op == 'gep':
            bt, base, idx = ins.a
            env[(path, ins.res)] = self.gep(fr, st, bt, V(base, ('prim', 'ptr')), [(t, V(x, t)) for t, x in idx])
        elif op == 'bin':
            o, fl, a, b = ins.a
            self.where = '%s:%s:%s' % (self.short(fr.fn.name), blk.name, ins.res)
            env[(path, ins.res)] = self.binop(st, o, fl, ins.ty, V(a, ins.ty), V(b, ins.ty))
        elif op == 'fneg':
            env[(path, ins.res)] = simplify(-V(ins.a[0], ins.ty))
        elif op == 'cast':
            o, t0, a = ins.a
            env[(path, ins.res)] = self.cast(st, o, t0, ins.ty, V(a, t0))
        elif op == 'icmp':
            pred, t, a, b = ins.a
            env[(path, ins.res)] = self.icmp(st, pred, t, V(a, t), V(b, t))
        elif op == 'fcmp':
            pred, t, a, b = ins.a
            env[(path, ins.res)] = self.fcmp(pred, V(a, t), V(b, t))
        elif op == 'select':
            c, a, b = ins.a
            c = V(c, ('prim', 'i1'))
            env[(path, ins.res)] = ite(simplify(c), V(a, ins.ty), V(b, ins.ty))
        elif op == 'alloca':
            r = Region('%s.%s' % (path, ins.res), ins.ty, IntVal(1) if not ins.a[0] else V(ins.a[0][1], ins.a[0][0]), undef=True)
            r.kind = 'local'; r.encl = tuple(self.encl); r.outer = False
            env[(path, ins.res)] = Ptr(r, (('d', IntVal(0)),))
        elif op in ('call', 'invoke'):
            return self.call(fr, blk, ins, st, outs, nxt)
        elif op == 'br':
            c, a, b = ins.a
            if c is None:
                nxt.append((st, blk.name, a)); return []
            c = simplify(V(c, ('prim', 'i1')))
            if is_true(c): nxt.append((st, blk.name, a)); return []
            if is_false(c): nxt.append((st, blk.name, b)); return []
            if a == b:
                nxt.append((st, blk.name, a)); return []
            fa = self.feasible(st, c); fb = self.feasible(st, Not(c))
            if fa:
                s = st.fork() if fb else st
                s.br(c) if fb else s.fact(c)
                nxt.append((s, blk.name, a))
            if fb:
                st.br(simplify(Not(c))) if fa else st.fact(simplify(Not(c)))
                nxt.append((st, blk.name, b))
            return []
        elif op == 'switch':
            c, d, cases = ins.a
            c = V(c, ins.ty)
            rest = []
            for v, tgt in cases:
                e = simplify(c == v)
                rest.append(Not(e))
                if self.feasible(st, e):
                    s = st.fork(); s.br(e); nxt.append((s, blk.name, tgt))
            g = simplify(And(*rest)) if rest else TRUE
            if self.feasible(st, g):
                st.br(g); nxt.append((st, blk.name, d))
            return []
        elif op == 'ret':
            v = None if ins.a[0] is None else V(ins.a[0], ins.ty)
            outs.rets.append((st, v)); return []
        elif op in ('unreachable', 'resume'):
            return []
        elif op == 'landingpad':
            raise Unsupported('landing pad reached')
        elif op == 'extractvalue':
            v = V(ins.a[0], ins.ty)
            for i in ins.a[1]:
                if not isinstance(v, Agg): raise Unsupported('extractvalue')
                v = v.els[i]
            env[(path, ins.res)] = v
        elif op == 'insertvalue':
            v, t2, e, ix = ins.a
            v = V(v, ins.ty)
            if isinstance(v, Undef): v = Agg([UNDEF] * len(self.rtype(ins.ty)[1]))
            if len(ix) != 1: raise Unsupported('insertvalue')
            els = list(v.els); els[ix[0]] = V(e, t2)
            env[(path, ins.res)] = Agg(els)
        elif op == 'freeze':
            env[(path, ins.res)] = V(ins.a[0], ins.ty)
        else:
            raise Unsupported('%s: %s' % (ins.a, ins.text))
        return [st]

    # ------------------------------------------------------------ arithmetic
    def inrange(self, v, w): return And(v >= -2**(w-1), v < 2**(w-1))

    def binop(self, st, o, fl, ty, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('arithmetic on undef')
        if isinstance(a, PDiff) and o == 'sdiv' and ival(b) == a.size: return a.n
        if isinstance(a, PDiff): a = a.n * a.size
        if isinstance(b, PDiff): b = b.n * b.size
        if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and len(a.p) == len(b.p) and a.p[:-1] == b.p[:-1] and a.p[-1][0] == b.p[-1][0] == 'd':
            t = self.ty_of(st, a)
            if t is not None: return PDiff(simp(a.p[-1][1] - b.p[-1][1]), self.sizeof(t))
        if isptr(a) or isptr(b): raise Unsupported('pointer arithmetic as integer')
        if o[0] == 'f' and o != 'freeze':
            if o == 'fadd': return simp(a + b)
            if o == 'fsub': return simp(a - b)
            if o == 'fmul': return simp(a * b)
            if o == 'fdiv':
                self.assumptions.add('floating-point division by zero yields an unspecified real')
                return simp(a / b)
            raise Unsupported(o)
        w = int(ty[1][1:])
        if w == 1:
            if o == 'and': return simplify(And(a, b))
            if o == 'or': return simplify(Or(a, b))
            if o == 'xor': return simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + o)
        if o in ('add', 'sub', 'mul'):
            v = simp(a + b if o == 'add' else a - b if o == 'sub' else a * b)
            if z3.is_int_value(v) and -2**(w-1) <= v.as_long() < 2**(w-1): return v
            if 'nsw' in fl:
                self.oblige(st, self.inrange(v, w), 'overflow', '%s i%d' % (o, w))
                return v
            if self.implied(st, self.inrange(v, w)): return v
            return wrap(v, w)
        if o in ('sdiv', 'srem'):
            bv = ival(b)
            if bv is None:
                self.oblige(st, b != 0, 'divzero', o)
            elif bv == 0:
                self.oblige(st, FALSE, 'divzero', o)
            apos = self.implied(st, a >= 0)
            bpos = (bv is not None and bv > 0) or self.implied(st, b > 0)
            if bpos:
                if apos: q = a / b
                elif self.implied(st, a <= 0): q = -((-a) / b)
                else: q = If(a >= 0, a / b, -((-a) / b))
            else:
                aa = If(a >= 0, a, -a); bb = If(b >= 0, b, -b)
                q = If((a >= 0) == (b >= 0), aa / bb, -(aa / bb))
            if o == 'sdiv': return simp(q)
            if bpos:
                if apos: return simp(a % b)
                return simp(If(a >= 0, a % b, -((-a) % b)))
            return simp(a - b * q)
        ua = a if self.implied(st, a >= 0) else If(a < 0, a + 2**w, a)
        ub = b if self.implied(st, b >= 0) else If(b < 0, b + 2**w, b)
        if o in ('udiv', 'urem'):
            bv = ival(b)
            if bv is None: self.oblige(st, b != 0, 'divzero', o)
            v = ua / ub if o == 'udiv' else ua % ub
            return simp(v) if self.implied(st, self.inrange(v, w)) else wrap(v, w)
        bv = ival(b); av = ival(a)
        if o == 'shl' and bv is not None:
            v = simp(a * 2**bv)
            if self.implied(st, self.inrange(v, w)): return v
            if 'nsw' in fl: self.oblige(st, self.inrange(v, w), 'overflow', 'shl'); return v
            return wrap(v, w)
        if o == 'shl' and av is not None:
            # constant << k : power-of-two table
            self.oblige(st, And(b >= 0, b < w), 'range', 'shift amount')
            v = pow2tab(b, w) * av
            if self.implied(st, self.inrange(v, w)): return simp(v)
            return wrap(v, w)
        if o == 'ashr' and bv is not None: return simp(a / 2**bv)      # floor division
        if o == 'lshr' and bv is not None:
            return simp(ua / 2**bv)
        if o == 'and' and bv is not None and bv >= 0 and (bv & (bv + 1)) == 0: return simp(ua % (bv + 1))
        if o == 'and' and av is not None and av >= 0 and (av & (av + 1)) == 0: return simp(ub % (av + 1))
        if o == 'xor' and bv == -1: return simp(-a - 1)
        if o == 'and':
            # a & (a-1): vanishes exactly for powers of two (lemma re-proved over bit-vectors)
            for x, y in ((a, b), (b, a)):
                if ival(simplify(y - x)) == -1 and and_lemma(w):
                    v = z3.Int('and!%d' % simplify(x).get_id()); self.pr.log.append(simplify(x))
                    st.fact(Implies(x >= 1, And((v == 0) == Or(*[x == 2**k for k in range(w - 1)]), v >= 0, v < x)))
                    return v
        if o in ('and', 'or', 'xor'):
            x = z3.Int2BV(a, w); y = z3.Int2BV(b, w)
            v = x & y if o == 'and' else x | y if o == 'or' else x ^ y
            return z3.BV2Int(v, True)
        raise Unsupported(o)

    def cast(self, st, o, t0, t1, a):
        if o in ('bitcast', 'ptrtoint', 'inttoptr'):
            if isptr(a): return a
            raise Unsupported(o)
        if isinstance(a, Undef): return a
        if isptr(a): raise Unsupported('cast of pointer')
        if o == 'sext':
            if t0 == ('prim', 'i1'): return simp(If(a, IntVal(-1), IntVal(0)))
            return a
        if o == 'zext':
            if t0 == ('prim', 'i1'): return simp(If(a, IntVal(1), IntVal(0)))
            w = int(t0[1][1:])
            if self.implied(st, a >= 0): return a
            return simp(If(a < 0, a + 2**w, a))
        if o == 'trunc':
            w = int(t1[1][1:])
            if w == 1:
                s = simp(Not(a == 0)) if self.pr.quick([h for h in st.hyps()], And(a >= 0, a <= 1)) else simp(a % 2 == 1)
                if z3.is_app_of(a, z3.Z3_OP_ITE) and ival(a.arg(1)) == 1 and ival(a.arg(2)) == 0: return a.arg(0)
                return s
            if self.implied(st, self.inrange(a, w)): return a
            return wrap(a, w)
        if o == 'sitofp': return simp(z3.ToReal(a))
        if o == 'uitofp':
            if t0 == ('prim', 'i1'): return If(a, RealVal(1), RealVal(0))
            w = int(t0[1][1:])
            if not self.implied(st, a >= 0): a = If(a < 0, a + 2**w, a)
            return simp(z3.ToReal(a))
        if o in ('fptosi', 'fptoui'):
            w = int(t1[1][1:])
            v = self.toint(st, a)
            if o == 'fptosi': self.oblige(st, self.inrange(v, w), 'range', 'float to i%d' % w)
            else:
                self.oblige(st, And(v >= 0, v < 2**w), 'range', 'float to u%d' % w)
                if not self.implied(st, v < 2**(w-1)): v = wrap(v, w)
            return v
        if o in ('fpext', 'fptrunc'):
            if o == 'fptrunc': self.assumptions.add('float rounding of double values ignored')
            return a
        raise Unsupported(o)

    def toint(self, st, a):
        """C truncation"""
        if z3.is_app_of(a, z3.Z3_OP_TO_REAL): return a.arg(0)
        if self.implied(st, a >= 0): return simp(z3.ToInt(a))
        if self.implied(st, a <= 0): return simp(-z3.ToInt(-a))
        return simp(If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))

    def icmp(self, st, pred, t, a, b):
        if isptr(a) or isptr(b): return self.pcmp(st, pred, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('comparison of undef')
        if a.sort() == B:
            if pred == 'eq': return simplify(a == b)
            if pred == 'ne': return simplify(a != b)
            raise Unsupported('i1 compare')
        if pred[0] == 'u':
            w = int(t[1][1:])
            if not (ival(a) is not None and ival(a) >= 0) and not self.implied(st, a >= 0): a = If(a < 0, a + 2**w, a)
            if not (ival(b) is not None and ival(b) >= 0) and not self.implied(st, b >= 0): b = If(b < 0, b + 2**w, b)
            pred = 's' + pred[1:]
        m = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}
        return simplify(m[pred]())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PIte): return simplify(If(a.c, self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b)))
        if isinstance(b, PIte): return simplify(If(b.c, self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b)))
        if isinstance(a, (PNull, FnPtr)) or isinstance(b, (PNull, FnPtr)):
            eq = isinstance(a, PNull) and isinstance(b, PNull)
            if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('compare undef pointer')
            if pred == 'eq': return BoolVal(eq)
            if pred == 'ne': return BoolVal(not eq)
            raise Unsupported('pointer order with null')
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('compare undef pointer')
        if a.r is not b.r:
            if pred == 'eq': return FALSE
            if pred == 'ne': return TRUE
            raise Unsupported('order of unrelated pointers')
        if a.key() != b.key():
            raise Unsupported('comparison of pointers into different members')
        ia, ib = a.idx(), b.idx()
        eqs = [x == y for x, y in zip(ia, ib)]
        if pred == 'eq': return simplify(And(*eqs))
        if pred == 'ne': return simplify(Not(And(*eqs)))
        m = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}
        return simplify(m[pred[1:]](ia[-1], ib[-1]))

    def fcmp(self, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('fcmp undef')
        if pred == 'uno': return FALSE
        if pred == 'ord': return TRUE
        p = pred[1:]
        m = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}
        return simplify(m[p]())

    # ------------------------------------------------------------ calls
    def call(self, fr, blk, ins, st, outs, nxt):
        d = ins.a
        self.cur_fr = fr
        kind, cname = d['callee']
        args = [self.val(fr, st, v, t) for t, v in d['args']]
        self.where = '%s:%s:%s' % (self.short(fr.fn.name), blk.name, self.short(cname) if kind == 'glob' else 'indirect')
        if kind == 'loc':
            f = st.env.get((fr.path, cname))
            if isinstance(f, FnPtr): cname = f.name
            else: raise Unsupported('indirect call')
        dem = self.dem.get(cname)
        if dem is None:
            self.dem.update(ir.demangle([cname])); dem = self.dem[cname]
        from . import lib
        res = None
        for fd in self.folds:
            if fd[0][0] == '<' and fd[0][1:] in dem: self.fold(fr, blk, st, fd)
        h = lib.lookup(cname, dem)
        if h is not None:
            rr = h(self, st, args, ins, dem)
            rets, throws = (rr if isinstance(rr, tuple) else ([(st, rr)], []))
        else:
            c = self.contracts.get(dem)
            if c is not None and c.modular and c.cname is not None:
                self.called.add(dem)
                from . import dsl
                rets, throws = dsl.call_contract(self, c, st, args, '%s>%s@%s' % (fr.path, self.short(cname), ins.res or blk.name))
            elif cname in self.mod.funcs:
                if not dem.startswith('std::') and not dem.startswith('__gnu') : self.inlined.add(dem)
                fn = self.mod.func(cname)
                rets, throws = self.run_function(fn, args, st, '%s>%s@%s' % (fr.path, self.short(cname)[-40:], ins.res or (blk.name + str(blk.ins.index(ins)))), fr.depth + 1)
            else:
                raise Unsupported('call of %s' % dem)
        outs.throws += throws
        out = []
        for s, v in rets:
            for fd in self.folds:
                if fd[0] in dem: self.fold(fr, blk, s, fd)
            if ins.res is not None: s.env[(fr.path, ins.res)] = v
            if ins.op == 'invoke': nxt.append((s, blk.name, d['normal']))
            else: out.append(s)
        return out

    def fold(self, fr, blk, st, fd):
        """where elements [0, n) of an array provably equal a definition, continue with the defined name (a rewriting, nothing assumed)"""
        name, a, n, fn, f = fd
        q = self.leafptr(st, a.p, a.el); idx = q.idx(); d = len(a.p.idx()) - 1
        c0 = self.content(st, q.r, q.key(), a.el)
        if fn is None:
            if self.encl: raise Unsupported('naming inside a loop')
            j = z3.Int('nm!j'); idx2 = list(idx); idx2[d] = simplify(idx[d] + j); cur = simplify(c0.read(idx2))
            if z3.is_app(cur) and cur.decl().name().startswith(f + '@def!'): return
            self.nnames = getattr(self, 'nnames', 0) + 1; g = z3.Function('%s@def!%d' % (f, self.nnames), I, cur.sort())
            st.fact(z3.ForAll([j], Implies(And(j >= 0, j < n), g(j) == cur), patterns=[g(j)]))
            kk = simplify(K[d] - idx[d])
            cond = simplify(And(*([K[i] == t for i, t in enumerate(idx) if i != d] + [kk >= 0, kk < n])))
            if len(idx) == 1 and not q.r.undef and z3.is_int_value(simplify(toz(idx[0]))) and simplify(toz(idx[0])).as_long() == 0 and self.implied(st, toz(q.r.size) == n): c0 = Content(g(kk), (), c0.n, c0.isp)
            else: c0 = c0.update(cond, g(kk))
            st.mem[(q.r, q.key())] = c0
            return
        k = z3.Int('sk!fold!%s' % f.name()); idx2 = list(idx); idx2[d] = simplify(idx[d] + k)
        c1 = simplify(c0.read(idx2)); ck = ('fold', fr.path, blk.name, f.name(), c1.get_id(), tuple(h.get_id() for h in st.hyps())); self.keep = getattr(self, 'keep', []); self.keep.append((c1, st.hyps()))
        ok = self.statics.get(ck)
        if ok is None:
            t = time.time()
            ok = self.statics[ck] = self.pr.prove(st.hyps() + [k >= 0, k < n], simplify(c0.read(idx2) == fn(k)))[0] == 'proved'
            if self.opts.get('verbose'): print('   fold %s after %s: %s (%.1fs)' % (f.name(), name, ok, time.time() - t), flush=True)
        if ok:
            kk = simplify(K[d] - idx[d])
            st.mem[(q.r, q.key())] = c0.update(simplify(And(*([K[i] == t for i, t in enumerate(idx) if i != d] + [kk >= 0, kk < n]))), f(kk))

    # ------------------------------------------------------------ loops
    def loop(self, fr, L, st0):
        from . import loops
        return loops.summarise(self, fr, L, st0)

class PathEnd(Exception):
    pass

def simp(e):
    return simplify(e) if size_small(e) else e

def size_small(e, lim=400):
    n = 0
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); n += 1
        if n > lim: return False
        st.extend(x.children())
    return True

def wrap(v, w):
    m = 2**w
    return ((v + 2**(w-1)) % m) - 2**(w-1)

def pow2tab(b, w):
    e = IntVal(2**(w-1))
    for i in range(w - 2, -1, -1): e = If(b == i, IntVal(2**i), e)
    return e

_andl = {}
def and_lemma(w):
    if w not in _andl:
        x = z3.BitVec('x', w)
        s = z3.Solver(); s.add(x > 0)
        s.add(Not(And(((x & (x - 1)) == 0) == Or(*[x == 2**k for k in range(w - 1)]), (x & (x - 1)) >= 0, (x & (x - 1)) < x)))
        _andl[w] = s.check() == z3.unsat
    return _andl[w]

def divexact(b, sz):
    b = simplify(b)
    if z3.is_int_value(b): return IntVal(b.as_long() // sz)
    # syntactic sz * n
    if z3.is_mul(b) and ival(b.arg(0)) is not None and ival(b.arg(0)) % sz == 0:
        rest = b.children()[1:]
        q = ival(b.arg(0)) // sz
        e = rest[0]
        for x in rest[1:]: e = e * x
        return simplify(q * e)
    e = simplify(b / sz)
    if z3.is_app_of(b, z3.Z3_OP_ADD):
        parts = [divexact_part(x, sz) for x in b.children()]
        if all(p is not None for p in parts):
            return simplify(sum(parts[1:], parts[0]))
    return e

def divexact_part(x, sz):
    if z3.is_int_value(x): return IntVal(x.as_long() // sz) if x.as_long() % sz == 0 else None
    if z3.is_mul(x) and ival(x.arg(0)) is not None and ival(x.arg(0)) % sz == 0:
        e = IntVal(ival(x.arg(0)) // sz)
        for y in x.children()[1:]: e = e * y
        return simplify(e)
    return None
