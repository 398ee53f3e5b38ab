"""Trusted contracts of the C/C++ library operations the verified code uses
(std::vector, memory allocation, memcpy/memset, libm).  These are assumptions;
evidence lists the ones actually used."""
import re, z3, itertools
from .core import *
from .prove import uf

def used(eng, name):
    eng.assumptions.add('library contract: ' + name)

def split_targs(s):
    """'double, std::allocator<double> >::rest' -> first arg, rest after the closing >"""
    d = 0; out = []; cur = ''
    for i, ch in enumerate(s):
        if ch == '<': d += 1
        if ch == '>':
            if d == 0:
                out.append(cur.strip()); return out, s[i+1:]
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''; continue
        cur += ch
    return out, ''

PRIMS = {'double': 'double', 'float': 'float', 'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64',
         'char': 'i8', 'bool': 'i8', 'short': 'i16', 'long long': 'i64', 'unsigned char': 'i8'}

def elemty(eng, s):
    s = s.strip()
    if s in PRIMS: return ('prim', PRIMS[s])
    if s.endswith('*'): return ('prim', 'ptr')
    if s.startswith('std::vector<'): return ('named', 'class.std::vector!' + s)
    for pre in ('struct.', 'class.'):
        if pre + s in eng.mod.types: return ('named', pre + s)
    raise Unsupported('element type ' + s)

def setty(eng, p, ety):
    if not isinstance(p, Ptr): raise Unsupported('vector through %r' % (p,))
    if p.r.ty is None: eng.set_type(p.r, ('named', 'class.std::vector!'))
    p.r.init[('vecty',) + p.key()] = ety

def elem(p, i):
    return Ptr(p.r, p.p + ('v', ('d', i)))

def vfix(eng, p):
    """p may designate an enclosing struct: descend"""
    return p

def havoc_ok(p): return True

def vec_method(eng, st, args, ins, dem, ety_s, meth, sig):
    ety = elemty(eng, ety_s)
    p = args[0]
    if isinstance(p, PIte): raise Unsupported('vector through PIte')
    # struct-return (sret) never occurs for the modelled methods
    setty(eng, p, ety)
    if eng.bounds(st, p):
        bs = eng.bounds(st, p)
        eng.oblige(st, And(*bs), 'bounds', 'vector object')
    fr = st.freed.get(p.r)
    if fr is not None: eng.oblige(st, Not(fr), 'liveness', 'use of released object ' + p.r.name)
    z = IntVal(0)
    used(eng, 'std::vector::' + meth)
    if meth in ('size',): return eng.vsize(st, p)
    if meth == 'empty': return simplify(eng.vsize(st, p) == 0)
    if meth == 'capacity':
        return eng.vsize(st, p)
    if meth in ('operator[]', 'at'):
        i = args[1]
        return elem(p, i)
    if meth in ('begin', 'data', 'front', 'cbegin'): return elem(p, z)
    if meth in ('end', 'cend'): return elem(p, eng.vsize(st, p))
    if meth == 'back': return elem(p, simplify(eng.vsize(st, p) - 1))
    if meth == 'vector' or meth == 'assign' or meth == 'operator=':
        if 'std::initializer_list' in sig: raise Unsupported('initializer list')
        if len(args) >= 2 and sig.startswith('(std::vector<') :
            q = args[1]
            setty(eng, q, ety)
            n = eng.vsize(st, q)
            if same(p, q): return p
            for k in [k for k in st.mem if k[0] is p.r and k[1][:len(p.key())+1] == p.key() + ('v',)] if p.r.undef and meth == 'vector' else []:
                del st.mem[k]
            eng.set_vsize(st, p, n)
            if ety[0] == 'named' and eng.is_vec(ety):
                copy_keys(eng, st, p, q)
            else:
                eng.copy_range(st, elem(p, z), elem(q, z), n, check=False)
            return p
        if len(args) >= 2 and re.match(r'\((__gnu_cxx::__normal_iterator|double const\*|double\*)', sig) or (meth == 'vector' and 'iterator' in dem.split('(')[0]) or (meth=='assign' and sig.startswith('(') and isptr(args[1])):
            a, b = args[1], args[2]
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r): raise Unsupported('iterator range')
            n = simplify(b.p[-1][1] - a.p[-1][1])
            eng.oblige(st, n >= 0, 'bounds', 'iterator range order')
            eng.set_vsize(st, p, n)
            eng.copy_range(st, elem(p, z), a, n, check=False)
            eng.oblige(st, Implies(n > 0, And(*(eng.bounds(st, a) + eng.bounds(st, Ptr(a.r, a.p[:-1] + (('d', a.p[-1][1] + n - 1),)))))), 'bounds', 'iterator range')
            return p
        if len(args) == 1 or sig.startswith('(std::allocator'):
            eng.set_vsize(st, p, z); return p
        n = args[1]
        if not z3.is_expr(n): raise Unsupported('vector ctor ' + sig)
        eng.oblige(st, n >= 0, 'range', 'vector size')
        eng.set_vsize(st, p, n)
        if len(args) >= 3 and isinstance(args[2], Ptr) and 'allocator' not in sig.split(',')[1]:
            fill_value(eng, st, p, z, n, args[2], ety)
        elif eng.is_vec(ety):
            q = elem(p, K[0])
            setsizes(eng, st, p, z, n, z)
        else:
            eng.fill_range(st, elem(p, z), n, None, check=False)
        return p
    if meth == 'resize':
        n = args[1]
        old = eng.vsize(st, p)
        eng.oblige(st, n >= 0, 'range', 'vector size')
        eng.set_vsize(st, p, n)
        if len(args) >= 3 and ety[0] == 'prim' and z3.is_expr(args[2]):
            eng.fill_range(st, elem(p, old), simplify(n - old), args[2], check=False)
        elif len(args) >= 3 and isinstance(args[2], Ptr):
            fill_value(eng, st, p, old, simplify(n - old), args[2], ety)
        elif ety[0] == 'prim':
            eng.fill_range(st, elem(p, old), simplify(n - old), None, check=False)
        else:
            setsizes(eng, st, p, old, simplify(n - old), z)
        return p
    if meth == 'clear':
        eng.set_vsize(st, p, z); return p
    if meth == 'reserve': return p
    if meth == 'push_back':
        n = eng.vsize(st, p)
        q = args[1]
        tgt = elem(p, n)
        eng.set_vsize(st, p, simplify(n + 1))
        if ety[0] == 'prim':
            v = eng.load(st, q, ety)
            eng.store(st, tgt, ety, v)
        elif eng.is_vec(ety):
            setty(eng, q, elemty(eng, split_targs(ety_s[len('std::vector<'):])[0][0]))
            copy_keys(eng, st, tgt, q)
        else:
            q2 = q if isinstance(q.p[-1], tuple) else None
            if q2 is None: raise Unsupported('push_back of member')
            eng.copy_range(st, tgt, q2, IntVal(1), check=False)
        return p
    if meth == 'pop_back':
        n = eng.vsize(st, p)
        eng.oblige(st, n > 0, 'bounds', 'pop_back of empty vector')
        eng.set_vsize(st, p, simplify(n - 1)); return p
    if meth == '~vector':
        if p.r.kind == 'local' and p.r.undef and len(p.p) == 1:
            # end of life: the contents are indeterminate again
            for k in [k for k in st.mem if k[0] is p.r]: del st.mem[k]
        return p
    if meth == 'erase' and len(args) == 3:
        a, b = args[1], args[2]
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('erase')
        ia, ib = a.p[-1][1], b.p[-1][1]
        n = eng.vsize(st, p)
        eng.oblige(st, And(ia >= 0, ia <= ib, ib <= n), 'bounds', 'erase range')
        eng.copy_range(st, elem(p, ia), elem(p, ib), simplify(n - ib), check=False)
        eng.set_vsize(st, p, simplify(n - (ib - ia)))
        return elem(p, ia)
    if meth == 'insert' and len(args) == 4 and isinstance(args[2], Ptr) and isinstance(args[3], Ptr) and args[2].r is args[3].r and args[2].r is not p.r:
        q, a, b = args[1], args[2], args[3]
        n0 = eng.vsize(st, p); i = q.p[-1][1]; n = simplify(b.p[-1][1] - a.p[-1][1])
        if not is_true(simplify(i == n0)): raise Unsupported('insert before the end')
        eng.oblige(st, n >= 0, 'bounds', 'iterator range order')
        eng.oblige(st, Implies(n > 0, And(*(eng.bounds(st, a) + eng.bounds(st, Ptr(a.r, a.p[:-1] + (('d', a.p[-1][1] + n - 1),)))))), 'bounds', 'iterator range')
        eng.set_vsize(st, p, simplify(n0 + n))
        eng.copy_range(st, elem(p, n0), a, n, check=False)
        return elem(p, n0)
    raise Unsupported('vector method %s%s' % (meth, sig))

def fill_value(eng, st, p, lo, n, q, ety):
    if ety[0] == 'prim':
        v = eng.load(st, q, ety)
        eng.fill_range(st, elem(p, lo), n, v, check=False)
        return
    if eng.is_vec(ety):
        # every element becomes a copy of vector *q
        inner = elemty(eng, split_targs(ety[1].split('!', 1)[1][len('std::vector<'):])[0][0])
        setty(eng, q, inner)
        tgt = elem(p, K[len(p.idx())])
        setty(eng, tgt, inner)
        d = len(p.idx())
        cond = conj([K[i] == t for i, t in enumerate(p.idx())] + [K[d] >= lo, K[d] < lo + n])
        sz = eng.vsize(st, q)
        c = eng.content(st, p.r, tgt.key() + ('#',), I)
        st.mem[(p.r, tgt.key() + ('#',))] = c.update(cond, sz)
        if inner[0] != 'prim': raise Unsupported('deep vector fill')
        src = eng.content(st, q.r, q.key() + ('v', '*'), inner)
        c = eng.content(st, p.r, tgt.key() + ('v', '*'), inner)
        st.mem[(p.r, tgt.key() + ('v', '*'))] = c.update(cond, src.read(q.idx() + [K[d + 1]]))
        return
    raise Unsupported('fill of structures')

def setsizes(eng, st, p, lo, n, sz):
    tgt = elem(p, K[len(p.idx())])
    d = len(p.idx())
    cond = conj([K[i] == t for i, t in enumerate(p.idx())] + [K[d] >= lo, K[d] < lo + n])
    key = tgt.key() + ('#',)
    c = eng.content(st, p.r, key, I)
    st.mem[(p.r, key)] = c.update(cond, sz)

def copy_keys(eng, st, p, q):
    """vector object assignment *p = *q for nested content"""
    rel = set(k[len(q.key()):] for k in eng.keys_under(st, q.r, q.key()))
    rel |= set(k[len(p.key()):] for k in eng.keys_under(st, p.r, p.key()))
    rel = set(r for r in rel if r)
    np_, nq = len(p.idx()), len(q.idx())
    for rk in rel:
        srt = I if rk[-1] == '#' else R
        src = eng.content(st, q.r, q.key() + rk, srt)
        old = eng.content(st, p.r, p.key() + rk, srt)
        inner = old.n - np_
        cond = conj([K[i] == t for i, t in enumerate(p.idx())])
        st.mem[(p.r, p.key() + rk)] = old.update(cond, src.read(q.idx() + [K[np_ + i] for i in range(inner)]))
    for k, v in list(q.r.init.items()):
        if k[:1] == ('vecty',) and k[1:1+len(q.key())] == q.key():
            p.r.init[('vecty',) + p.key() + k[1+len(q.key()):]] = v

def scalar_tmp(eng, ins, name, ty, v, st):
    r = Region('%s!%s' % (name, eng.where), ty, IntVal(1), undef=True)
    r.kind = 'local'; r.outer = False; r.encl = tuple(eng.encl)
    p = Ptr(r, (('d', IntVal(0)),))
    st.mem[(r, ('*',))] = Content(v, (), 1)
    return p

def minmax(which):
    def h(eng, st, args, ins, dem):
        m = re.search(r'std::(?:max|min)<([^>]*)>', dem)
        ty = ('prim', PRIMS[m.group(1).strip()])
        a = eng.load(st, args[0], ty); b = eng.load(st, args[1], ty)
        v = If(a < b, b, a) if which == 'max' else If(b < a, b, a)
        return scalar_tmp(eng, ins, which, ty, simplify(v), st)
    return h

def math1(name):
    def h(eng, st, args, ins, dem):
        used(eng, 'libm %s (uninterpreted real function)' % name)
        return uf(name)(args[0])
    return h

def h_cexp(eng, st, args, ins, dem):
    used(eng, 'libm cexp: exp(re) (cos im + i sin im)')
    e = RealVal(1) if is_zero(args[0]) else uf('exp')(args[0])
    return Agg([simplify(e * uf('cos')(args[1])), simplify(e * uf('sin')(args[1]))])
def is_zero(x):
    x = simplify(x); return z3.is_rational_value(x) and x.as_fraction() == 0
def h_sqrt(eng, st, args, ins, dem):
    used(eng, 'libm sqrt'); return uf('sqrt')(args[0])

def h_pow(eng, st, args, ins, dem):
    used(eng, 'libm pow')
    a, b = args[0], args[1]
    if b.sort() == I: b = z3.ToReal(b)
    bs = simplify(b)
    if z3.is_rational_value(bs) and bs.denominator_as_long() == 1 and 0 <= bs.numerator_as_long() <= 8:
        e = RealVal(1)
        for i in range(bs.numerator_as_long()): e = a if i == 0 else e * a
        return simplify(e)
    return uf('pow', 2)(a, b)

def h_powi(eng, st, args, ins, dem): return h_pow(eng, st, [args[0], args[1]], ins, dem)
def h_atan2(eng, st, args, ins, dem):
    used(eng, 'libm atan2'); return uf('atan2', 2)(args[0], args[1])
def h_fmod(eng, st, args, ins, dem):
    used(eng, 'libm fmod'); return uf('fmod', 2)(args[0], args[1])
def h_floor(eng, st, args, ins, dem): return simplify(z3.ToReal(z3.ToInt(args[0])))
def h_ceil(eng, st, args, ins, dem): return simplify(-z3.ToReal(z3.ToInt(-args[0])))
def h_fabs(eng, st, args, ins, dem): return simplify(If(args[0] >= 0, args[0], -args[0]))
def h_abs(eng, st, args, ins, dem):
    eng.oblige(st, args[0] > -2**31, 'overflow', 'abs')
    return simplify(If(args[0] >= 0, args[0], -args[0]))
def h_fmuladd(eng, st, args, ins, dem): return simplify(args[0] * args[1] + args[2])
def h_false(eng, st, args, ins, dem):
    eng.assumptions.add('floating-point values are finite reals (no NaN or infinity)')
    return FALSE
def h_ifalse(eng, st, args, ins, dem):
    eng.assumptions.add('floating-point values are finite reals (no NaN or infinity)')
    return IntVal(0)

def newregion(eng, st, args, ins, dem, zero=False, nbytes=None):
    nb = nbytes if nbytes is not None else args[0]
    r = Region('new!%s:%s#%d' % (eng.cur_fr.path if getattr(eng, 'cur_fr', None) else '', eng.where.rsplit(':', 1)[0].rsplit(':', 1)[-1] + '.' + str(ins.res), len(eng.encl)), None, None, undef=not zero, bytes_=nb)
    r.encl = tuple(eng.encl); r.outer = False
    used(eng, 'operator new / malloc returns fresh non-overlapping memory (never null)')
    if zero: r.zero = True
    st.freed[r] = FALSE
    return Ptr(r, (('d', IntVal(0)),))

BASIC = {'double': 'double', 'float': 'float', 'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64'}
def allocty(eng, ins):
    """element type of a new expression, from the debug information of the allocation"""
    m = re.search(r'!heapallocsite !(\d+)', getattr(ins, 'text', '') or '')
    if not m: return None
    d = eng.mod.meta.get(int(m.group(1)), '')
    n = re.search(r'DIBasicType\(name: "([^"]*)"', d)
    return ('prim', BASIC[n.group(1)]) if n and n.group(1) in BASIC else None
def h_new(eng, st, args, ins, dem):
    p = newregion(eng, st, args, ins, dem); p.r.guess = allocty(eng, ins)
    return p
def h_calloc(eng, st, args, ins, dem): return newregion(eng, st, args, ins, dem, True, simplify(args[0] * args[1]))

def h_delete(eng, st, args, ins, dem):
    p = args[0]
    if isinstance(p, PNull): return None
    if isinstance(p, PIte):
        raise Unsupported('delete of conditional pointer')
    if not isinstance(p, Ptr): raise Unsupported('delete of %r' % p)
    old = st.freed.get(p.r, FALSE)
    eng.oblige(st, Not(old), 'liveness', 'double release of ' + p.r.name)
    if len([x for x in p.p if isinstance(x, tuple)]) > 1 or p.r.dims:
        return None   # a row of a family of arrays
    st.freed[p.r] = TRUE
    return None

def guess_type(eng, ins, k, n):
    """element type of fresh memory from the way the function indexes it (a later access at another type is rejected)"""
    op = ins.a['args'][k][1]; ts = set()
    for b in eng.cur_fr.fn.blocks.values() if isinstance(eng.cur_fr.fn.blocks, dict) else eng.cur_fr.fn.blocks:
        for i in b.ins:
            if i.op == 'gep' and i.a[1] == op and i.a[0] != ('prim', 'i8'): ts.add(i.a[0])
    if len(ts) == 1: return ts.pop()
    if ts: return None
    from .exec import divexact
    try: divexact(n, 8); return ('prim', 'double')
    except Exception: return None

def h_memset(eng, st, args, ins, dem):
    p, v, n = args[0], args[1], args[2]
    if ival(v) != 0: raise Unsupported('memset non-zero')
    if isinstance(p, PNull): return args[0]
    t = eng.ty_of(st, p)
    if t is None:
        t = getattr(p.r, 'guess', None) or guess_type(eng, ins, 0, n)
        if t is None: raise Unsupported('memset of untyped memory')
        eng.set_type(p.r, t)
    if not isinstance(p.p[-1], tuple):
        raise Unsupported('memset member')
    if t[0] == 'arr': p = Ptr(p.r, p.p + (('d', IntVal(0)),)); t = t[2]
    from .exec import divexact
    cnt = divexact(n, eng.sizeof(t))
    eng.fill_range(st, p, cnt, None)
    return args[0]

def h_memcpy(eng, st, args, ins, dem):
    q, p, n = args[0], args[1], args[2]
    if not isinstance(q, Ptr) or not isinstance(p, Ptr): raise Unsupported('memcpy')
    from .exec import divexact
    t = eng.ty_of(st, p) or eng.ty_of(st, q)
    if t is None: raise Unsupported('memcpy of untyped memory')
    for z in (p, q):
        if z.r.ty is None: eng.set_type(z.r, t)
    nb = ival(n)
    # descend arrays
    def norm(z):
        while True:
            tt = eng.ty_of(st, z)
            if tt[0] == 'arr' : z = Ptr(z.r, z.p + (('d', IntVal(0)),))
            else: return z
    if nb is not None and nb == eng.sizeof_safe(t) and eng.rtype(t)[0] == 'struct' or not isinstance(p.p[-1], tuple):
        struct_copy(eng, st, q, p); return q
    p = norm(p); q = norm(q)
    t = eng.ty_of(st, p)
    if t != eng.ty_of(st, q): raise Unsupported('memcpy between %r and %r' % (t, eng.ty_of(st, q)))
    eng.copy_range(st, q, p, divexact(n, eng.sizeof(t)))
    return q

def struct_copy(eng, st, q, p):
    rel = set(k[len(p.key()):] for k in eng.keys_under(st, p.r, p.key()))
    rel |= set(k[len(q.key()):] for k in eng.keys_under(st, q.r, q.key()))
    lk = eng.leaf_keys(eng.ty_of(st, p)) or []
    leaf = dict(lk); rel |= set(leaf)
    nq, np_ = len(q.idx()), len(p.idx())
    for rk in rel:
        lt = leaf.get(rk)
        try:
            src = eng.content(st, p.r, p.key() + rk, 'ptr' if lt == ('prim', 'ptr') else (lt or R))
        except Unsupported:
            continue
        old = eng.content(st, q.r, q.key() + rk, 'ptr' if src.isp else (lt or R)) if not (src.isp and (q.r, q.key() + rk) not in st.mem) else Content(UNDEF, (), nq + src.n - np_, True)
        inner = src.n - np_
        cond = conj([K[i] == t for i, t in enumerate(q.idx())])
        st.mem[(q.r, q.key() + rk)] = old.update(cond, src.read(p.idx() + [K[nq + i] for i in range(inner)]))

def h_throw(eng, st, args, ins, dem): return ([], [st])
def h_end(eng, st, args, ins, dem): return ([], [])
def h_nop(eng, st, args, ins, dem): return args[0] if args else None
def h_zero(eng, st, args, ins, dem): return IntVal(0)
def h_excalloc(eng, st, args, ins, dem):
    r = Region('exception', ('prim', 'i8'), args[0], undef=True); r.outer = False
    return Ptr(r, (('d', IntVal(0)),))

def h_umulo(eng, st, args, ins, dem):
    a, b = args
    v = simplify(a * b)
    ok = And(a >= 0, b >= 0, v < 2**63)
    if eng.implied(st, ok): return Agg([v, FALSE])
    eng.oblige(st, ok, 'overflow', 'allocation size')
    return Agg([v, FALSE])

def h_std_copy(eng, st, args, ins, dem):
    a, b, q = args
    if not all(isinstance(x, Ptr) for x in args) or a.r is not b.r: raise Unsupported('std::copy')
    used(eng, 'std::copy')
    n = simplify(b.p[-1][1] - a.p[-1][1])
    eng.oblige(st, n >= 0, 'bounds', 'std::copy range order')
    eng.copy_range(st, q, a, n)
    return Ptr(q.r, q.p[:-1] + (('d', simplify(q.p[-1][1] + n)),))

def h_std_copy_backward(eng, st, args, ins, dem):
    a, b, q = args
    if not all(isinstance(x, Ptr) for x in args) or a.r is not b.r: raise Unsupported('std::copy_backward')
    used(eng, 'std::copy_backward')
    n = simplify(b.p[-1][1] - a.p[-1][1])
    eng.oblige(st, n >= 0, 'bounds', 'std::copy_backward range order')
    q0 = Ptr(q.r, q.p[:-1] + (('d', simplify(q.p[-1][1] - n)),))
    eng.copy_range(st, q0, a, n)
    return q0

def h_std_fill(eng, st, args, ins, dem):
    a, b, v = args
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.r is not b.r: raise Unsupported('std::fill')
    used(eng, 'std::fill')
    n = simplify(b.p[-1][1] - a.p[-1][1])
    t = eng.ty_of(st, a)
    x = eng.load(st, v, t)
    eng.oblige(st, n >= 0, 'bounds', 'std::fill range order')
    eng.fill_range(st, a, n, x)
    return None

def h_std_swap(eng, st, args, ins, dem):
    m = re.search(r'std::swap<([^>]*)>', dem)
    ty = ('prim', PRIMS[m.group(1).strip()])
    a = eng.load(st, args[0], ty); b = eng.load(st, args[1], ty)
    eng.store(st, args[0], ty, b); eng.store(st, args[1], ty, a)
    return None

def h_sort(eng, st, args, ins, dem):
    """std::sort(first,last): range becomes sorted; permutation expressed through the
    uninterpreted order statistic: element i of the result is ORDSTAT(i) of the input"""
    a, b = args[0], args[1]
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.r is not b.r: raise Unsupported('std::sort')
    used(eng, 'std::sort (sorted permutation)')
    n = simplify(b.p[-1][1] - a.p[-1][1])
    eng.oblige(st, n >= 0, 'bounds', 'std::sort range order')
    last = Ptr(a.r, a.p[:-1] + (('d', a.p[-1][1] + n - 1),))
    eng.oblige(st, Implies(n > 0, And(*(eng.bounds(st, a) + eng.bounds(st, last)))), 'bounds', 'std::sort range')
    t = eng.ty_of(st, a)
    c = eng.content(st, a.r, a.key(), t)
    if c.n < 1: raise Unsupported('sort')
    base = a.p[-1][1]
    pre = a.idx()[:-1]
    lam_in = lam(lambda j: If(And(j >= 0, j < n), simplify(c.read(pre + [base + j])), 0))
    ORD = ordstat(n, lam_in, K[len(pre)] - base)
    kk = K[len(pre)]
    cond = conj([K[i] == x for i, x in enumerate(pre)] + [kk >= base, kk < base + n])
    st.mem[(a.r, a.key())] = c.update(cond, ORD)
    i, j = z3.Ints('so!i so!j')
    st.fact(z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), ordstat(n, lam_in, i) <= ordstat(n, lam_in, j))))
    return None

def h_lower_bound(eng, st, args, ins, dem):
    """first position not less than the value, in a sorted range"""
    a, b = args[0], args[1]
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.r is not b.r: raise Unsupported('std::lower_bound')
    used(eng, 'std::lower_bound (first position not less than the value; the range being sorted is an obligation)')
    n = simplify(b.p[-1][1] - a.p[-1][1])
    t = eng.ty_of(st, a); v = eng.load(st, args[2], t)
    eng.oblige(st, n >= 0, 'bounds', 'std::lower_bound range order')
    last = Ptr(a.r, a.p[:-1] + (('d', simplify(a.p[-1][1] + n - 1)),))
    eng.oblige(st, Implies(n > 0, And(*(eng.bounds(st, a) + eng.bounds(st, last)))), 'bounds', 'std::lower_bound range')
    c = eng.content(st, a.r, a.key(), t); base = a.p[-1][1]; pre = a.idx()[:-1]
    el = lambda j: c.read(pre + [simplify(base + j)])
    i, j = z3.Ints('lb!i lb!j')
    eng.oblige(st, z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), el(i) <= el(j))), 'precondition', 'std::lower_bound on a sorted range')
    r = eng.sym('lb!%s' % eng.where, I)
    st.fact(And(r >= 0, r <= n))
    st.fact(z3.ForAll([j], Implies(And(j >= 0, j < r), el(j) < v)))
    st.fact(z3.ForAll([j], Implies(And(j >= r, j < n), el(j) >= v)))
    return Ptr(a.r, a.p[:-1] + (('d', simplify(base + r)),))

ORDF = z3.Function('ORDSTAT', I, AIR, I, R)
def ordstat(n, arr, k): return ORDF(n, arr, k)

_x = None
QS = itertools.count()
ORDI = z3.Function('ORDSTATI', I, z3.ArraySort(I, I), I, I)   # k-th smallest of the first n elements of an integer array
def h_qsort(eng, st, args, ins, dem):
    """qsort over ints with MathUtilities::compareInt (whose own contract gives the order; no overflow is an obligation)"""
    a, n, sz, cmp = args
    if not isinstance(a, Ptr) or not isinstance(cmp, FnPtr) or 'MathUtilities10compareInt' not in cmp.name: raise Unsupported('qsort')
    used(eng, 'qsort with an integer comparator (sorted permutation)')
    t = eng.ty_of(st, a)
    n = simplify(toz(n)); eng.oblige(st, And(toz(sz) == 4, n >= 0), 'bounds', 'qsort element size')
    if a.p and a.p[-1][0] != 'd': a = Ptr(a.r, a.p + (('d', IntVal(0)),))
    last = Ptr(a.r, a.p[:-1] + (('d', a.p[-1][1] + n - 1),))
    eng.oblige(st, Implies(n > 0, And(*(eng.bounds(st, a) + eng.bounds(st, last)))), 'bounds', 'qsort range')
    c = eng.content(st, a.r, a.key(), t)
    if c.n < 1: raise Unsupported('sort')
    base = a.p[-1][1]; pre = a.idx()[:-1]; el = lambda j: simplify(c.read(pre + [base + j]))
    j = z3.Int('qs!j'); i = z3.Int('qs!i')
    eng.oblige(st, z3.ForAll([j], Implies(And(j >= 0, j < n), And(el(j) >= -2**30, el(j) < 2**30))), 'precondition', 'qsort comparator does not overflow')
    arr = lam(lambda j: If(And(j >= 0, j < n), el(j), 0)); kk = K[len(pre)]
    u = next(QS); S, P = z3.Function('qsorted!%d' % u, I, I), z3.Function('qsortperm!%d' % u, I, I)
    st.mem[(a.r, a.key())] = c.update(conj([K[i] == x for i, x in enumerate(pre)] + [kk >= base, kk < base + n]), S(simplify(kk - base)))
    st.fact(z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), S(i) <= S(j))))
    st.fact(z3.ForAll([j], Implies(And(0 <= j, j < n), And(S(j) == ORDI(n, arr, j), P(j) >= 0, P(j) < n, S(j) == el(P(j)))), patterns=[S(j)]))
    return None

def h_lrint(eng, st, args, ins, dem): raise Unsupported('lrint')
def h_round(eng, st, args, ins, dem):
    x = args[0]
    if eng.implied(st, x >= 0): return simplify(z3.ToReal(z3.ToInt(x + RealVal('1/2'))))
    if eng.implied(st, x <= 0): return simplify(-z3.ToReal(z3.ToInt(-x + RealVal('1/2'))))
    return simplify(If(x >= 0, z3.ToReal(z3.ToInt(x + RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + RealVal('1/2')))))

def h_rand(eng, st, args, ins, dem):
    used(eng, 'rand() returns any value in [0, RAND_MAX]')
    return eng.sym('rand!%s!%s' % (eng.where, ins.res), I) % 2**31

BYNAME = {
 'rand': h_rand, 'srand': h_nop, 'time': h_rand,
 'sin': math1('sin'), 'cos': math1('cos'), 'tan': math1('tan'), 'exp': math1('exp'), 'log': math1('log'), 'log10': math1('log10'), 'log2': math1('log2'),
 'atan': math1('atan'), 'acos': math1('acos'), 'asin': math1('asin'), 'sinh': math1('sinh'), 'cosh': math1('cosh'), 'tanh': math1('tanh'),
 'cexp': h_cexp, 'sqrt': h_sqrt, 'pow': h_pow, 'atan2': h_atan2, 'fmod': h_fmod, 'floor': h_floor, 'ceil': h_ceil, 'fabs': h_fabs, 'abs': h_abs,
 'sqrtf': h_sqrt, 'powf': h_pow, 'floorf': h_floor, 'ceilf': h_ceil, 'fabsf': h_fabs, 'logf': math1('log'), 'expf': math1('exp'), 'sinf': math1('sin'), 'cosf': math1('cos'),
 'llvm.sin.f64': math1('sin'), 'llvm.cos.f64': math1('cos'), 'llvm.exp.f64': math1('exp'), 'llvm.log.f64': math1('log'), 'llvm.log10.f64': math1('log10'), 'llvm.log2.f64': math1('log2'),
 'llvm.powi.f64.i32': h_powi, 'llvm.sqrt.f64': h_sqrt, 'llvm.pow.f64': h_pow, 'llvm.floor.f64': h_floor, 'llvm.ceil.f64': h_ceil, 'llvm.fabs.f64': h_fabs, 'llvm.fabs.f32': h_fabs,
 'llvm.fmuladd.f64': h_fmuladd, 'llvm.fma.f64': h_fmuladd, 'llvm.round.f64': h_round, 'round': h_round,
 'qsort': h_qsort,
 'isnan': h_ifalse, 'isinf': h_ifalse, '__isnan': h_ifalse, '__isinf': h_ifalse, 'llvm.is.fpclass.f64': h_false, 
 '_Znwm': h_new, '_Znam': h_new, 'malloc': h_new, 'calloc': h_calloc, '_ZdlPv': h_delete, '_ZdaPv': h_delete, '_ZdlPvm': h_delete, '_ZdaPvm': h_delete, 'free': h_delete,
 'llvm.memset.p0.i64': h_memset, 'llvm.memcpy.p0.p0.i64': h_memcpy, 'llvm.memmove.p0.p0.i64': h_memcpy, 'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset,
 'llvm.umul.with.overflow.i64': h_umulo,
 '__cxa_throw': h_throw, '__cxa_allocate_exception': h_excalloc, '__cxa_free_exception': h_nop, 'abort': h_end, 'exit': h_end, '__assert_fail': h_throw, '_ZSt9terminatev': h_end,
 '__cxa_throw_bad_array_new_length': h_throw,
 'printf': h_zero, 'fprintf': h_zero, 'puts': h_zero, 'putchar': h_zero, 'fflush': h_zero,
 'llvm.stacksave.p0': h_zero, 'llvm.stackrestore.p0': h_nop, 'llvm.trap': h_throw, '__cxa_atexit': h_zero, '__cxa_guard_release': h_nop,
}

def h_vector(eng, st, args, ins, dem):
    s = dem
    m = re.search(r'std::vector<', s)
    targs, rest = split_targs(s[m.end():])
    m2 = re.match(r'::(~?\w+|operator\[\]|operator=|operator==)(<.*>)?(\(.*)$', rest)
    if not m2: raise Unsupported('vector: ' + dem)
    return vec_method(eng, st, args, ins, dem, targs[0], m2.group(1), m2.group(3))

VPUB = re.compile(r'^(?:\w[\w ]* )?std::vector<.*>::(size|empty|capacity|operator\[\]|at|begin|end|front|back|data|vector|~vector|assign|operator=|resize|clear|reserve|push_back|pop_back|erase|insert)(<.*>)?\(')

def top_method(dem):
    """method name if dem is a public method of std::vector itself"""
    m = re.match(r'^(?:[\w:<>*&, ]+ )??std::vector<', dem)
    if not dem.startswith('std::vector<'):
        m = re.match(r'^(void|std::vector<[^(]*?>&?) (std::vector<.*)$', dem)
        if m and dem.startswith('void std::vector<'): dem = m.group(2)
        else: return None
    targs, rest = split_targs(dem[len('std::vector<'):])
    m2 = re.match(r'::(~?\w+|operator\[\]|operator=|operator==)(<.*>)?\(', rest)
    return m2.group(1) if m2 else None

def lookup(cname, dem):
    h = BYNAME.get(cname)
    if h: return h
    if cname.startswith('llvm.dbg') or cname.startswith('llvm.lifetime') or cname.startswith('llvm.assume'): return h_nop
    t = top_method(dem)
    if t and not t.startswith('_'): return h_vector
    if re.match(r'(?:[\w:<>&]+ const& )std::max<(int|double|unsigned long|long|float|unsigned int)>\(', dem): return minmax('max')
    if re.match(r'(?:[\w:<>&]+ const& )std::min<(int|double|unsigned long|long|float|unsigned int)>\(', dem): return minmax('min')
    d = dem
    if re.match(r'(?:int|unsigned long|long|unsigned int) const& std::max<', d) or re.match(r'(?:int|unsigned long|long|unsigned int) const& std::min<', d):
        return minmax('max' if 'std::max<' in d else 'min')
    if re.match(r'.*std::sort<.*\(', d) and 'std::__sort' not in d and d.startswith('void std::sort<'): return h_sort
    if re.match(r'[^(]*\bstd::lower_bound<', d): return h_lower_bound
    if re.match(r'[^(]*\bstd::copy<', d) and not 'std::__' in d.split('(')[0].split('std::copy')[0]: return h_std_copy
    if re.match(r'[^(]*\bstd::copy_backward<', d): return h_std_copy_backward
    if d.startswith('void std::fill<'): return h_std_fill
    if 'std::swap<' in d.split('(')[0] and ' std::swap<' in ' ' + d.split('(')[0]: return h_std_swap
    if re.match(r'std::(logic_error|runtime_error|invalid_argument|domain_error|out_of_range|length_error|exception)::', d): return h_nop
    if re.match(r'std::(__cxx11::)?(basic_string|basic_ostream|ostream|allocator|__new_allocator)', d) or d.startswith('std::ostream') or d.startswith('std::__new_allocator') or d.startswith('std::allocator'): return h_nop
    if 'operator<<' in d and 'ostream' in d: return h_nop
    if d.startswith('bool std::isnan') or d.startswith('std::isnan(') or d.startswith('std::isinf('): return h_false
    return None
