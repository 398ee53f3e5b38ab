"""Loop summarisation.

For every loop: run the body once from a generic state, guess closed forms for
everything it modifies (linear counters, SUM accumulators, array maps indexed
by an affine counter, last-iteration values), fall back to a recursive function
of the iteration number for anything else, then run the body again from the
closed-form state at an arbitrary iteration and discharge that the closed form
is preserved (the loop invariant) together with all obligations of the body."""
import z3, time
from time import process_time as clock
from . import prove
from .core import *
from .prove import has_q, walk_apps, is_sum
from .exec import Outs, Frame, size_small, simp, Obl

class LV:   # one loop-variant thing
    __slots__ = ('kind', 'id', 'sym', 'init', 'final', 'closed', 'how', 'n', 'sort', 'fdecl', 'rec', 'recstep', 'given')
    def __init__(self, kind, id): self.kind = kind; self.id = id; self.closed = None; self.how = None; self.rec = None; self.given = False

def lin(e, it):
    """e = c*it + e0 with c int constant free of it -> (c, e0)"""
    e0 = simplify(substitute(e, (it, IntVal(0))))
    e1 = simplify(substitute(e, (it, IntVal(1))))
    c = simplify(e1 - e0)
    cv = ival(c)
    if cv is None: return None
    d = simplify(e - (IntVal(cv) * it + e0))
    if ival(d) == 0: return cv, e0
    d = simplify(e - (IntVal(cv) * it + e0), som=True)
    if ival(d) == 0: return cv, e0
    return None

def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children(): out += conjuncts(x)
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children(): out += conjuncts(simplify(Not(x)))
        return out
    return [c]

def mentions(e, names):
    return bool(consts_of(e) & names)

def vmentions(v, names):
    if z3.is_expr(v): return mentions(v, names)
    if isinstance(v, Ptr): return any(mentions(x[1], names) for x in v.p if isinstance(x, tuple))
    if isinstance(v, PIte): return mentions(v.c, names) or vmentions(v.a, names) or vmentions(v.b, names)
    return False

class Solver:
    """closed-form environment"""
    def __init__(self, it):
        self.it = it; self.cpairs = []; self.fpairs = []
    def add_const(self, sym, closed): self.cpairs.append((sym, closed))
    def add_fun(self, fdecl, n, content):
        body = content.expr()
        vs = [(K[i], z3.Var(i, I)) for i in range(n)]
        self.fpairs.append((fdecl, substitute(body, *vs)))
    def apply(self, e, j=None):
        def one(x):
            if self.cpairs: x = substitute(x, *self.cpairs)
            if self.fpairs:
                x = z3.substitute_funs(x, *self.fpairs)
                # array closed forms may be applied to terms with further constants: constants were done first,
                # closed bodies contain no generic constants
            return x
        r = mapval(e, one)
        if j is not None: r = psubst(r, [(self.it, j)])
        return r

def read_scalar(c): return c.read([IntVal(0)] * c.n)

def summarise(eng, fr, L, st0):
    fn = fr.fn; H = L.header
    lname = fr.path + '!' + H
    it = z3.Int(lname + '!it')
    blk = fn.blocks[H]
    if eng.unroll and (not eng.unroll_outer or (fr.depth == 0 and L.parent is None and not eng.encl)): return unroll(eng, fr, L, st0, eng.unroll)
    for hi, h in enumerate(eng.loop_hints):
        r = h.cut(eng, fr, L, st0) if h.cut else None
        if r is None: continue
        a, n, val = r
        ok = eng.statics.get(('cut', lname, hi))
        if ok is None:
            k = z3.Int('sk!cut!%d' % hi)
            ok = eng.statics[('cut', lname, hi)] = eng.pr.prove(st0.hyps() + [k >= 0, k < n], simp(a[k] == val(k)), timeout=3000)[0] == 'proved'
            if eng.opts.get('loops'): print('    cut', 'proved' if ok else 'not proved', lname)
        if ok:
            q = eng.leafptr(st0, a.p, a.el); idx = q.idx(); d = len(a.p.idx()) - 1
            key = (q.r, q.key()); c0 = st0.mem.get(key) or q.r.init.get(q.key())
            if c0 is None: continue
            kk = K[d] - idx[d]
            st0.mem[key] = c0.update(simp(conj([K[i] == t for i, t in enumerate(idx) if i != d] + [kk >= 0, kk < n])), val(kk))
    memo = eng.statics.setdefault(('M', lname), {})
    M = dict(memo)                       # (region,key) -> n
    M = {k: v for k, v in M.items() if region_live(k[0], st0)}
    path = fr.path

    for attempt in range(8):
        # ---------------- Phase A: generic iteration
        for rnd in range(8):
            st = st0.fork()
            lvs = []
            ptrgen = {}
            for ph in blk.phis:
                v0 = st0.env[(path, ph.res)]
                lv = LV('phi', ph.res); lv.init = v0
                if z3.is_expr(v0):
                    lv.sym = z3.Const('%s!%s' % (lname, ph.res), v0.sort()); lv.sort = v0.sort()
                    st.env[(path, ph.res)] = lv.sym
                    if lv.sort == I and ph.ty[0] == 'prim' and ph.ty[1][0] == 'i':
                        st.fact(eng.inrange(lv.sym, int(ph.ty[1][1:])))
                elif isinstance(v0, Ptr) and isinstance(v0.p[-1], tuple):
                    lv.kind = 'pphi'; lv.sym = z3.Int('%s!%s' % (lname, ph.res)); lv.sort = I
                    st.env[(path, ph.res)] = Ptr(v0.r, v0.p[:-1] + (('d', lv.sym),))
                else:
                    lv.kind = 'ophi'; lv.sym = None; lv.sort = None
                    if isinstance(v0, Undef) and ph.ty[0] == 'prim' and ph.ty[1] != 'ptr':
                        lv.kind = 'phi'; lv.sort = eng.sort_of(ph.ty)
                        lv.init = eng.sym('%s!%s!undef' % (lname, ph.res), lv.sort)
                        lv.sym = z3.Const('%s!%s' % (lname, ph.res), lv.sort)
                        st.env[(path, ph.res)] = lv.sym
                lvs.append(lv)
            for k, n in M.items():
                r, key = k
                c0 = st0.mem.get(k) or r.init.get(key)
                if c0 is None:
                    continue
                lv = LV('mem', k); lv.init = c0; lv.n = c0.n
                e0 = c0.expr()
                if c0.isp:
                    lv.kind = 'pmem'; lvs.append(lv); continue
                lv.sort = e0.sort()
                nm = '%s!%s%s' % (lname, r.name, ''.join('.%s' % x for x in key if x != '*'))
                if single(r, key):
                    lv.kind = 'cell'; lv.init = c0.read([IntVal(0)] * c0.n)
                    if not z3.is_expr(lv.init): lv.init = eng.sym(nm + '!init', lv.sort)
                    lv.sym = z3.Const(nm, lv.sort)
                    st.mem[k] = Content(lv.sym, (), c0.n)
                    if lv.sort == I: st.fact(eng.inrange(lv.sym, 64 if key[-1] == '#' else 32))
                else:
                    lv.fdecl = z3.Function(nm, *([I] * c0.n), lv.sort)
                    st.mem[k] = Content(lv.fdecl(*K[:c0.n]), (), c0.n)
                    lv.sym = lv.fdecl
                lvs.append(lv)
            st.fact(it >= 0)
            mark = len(st.pc)
            start = {k: v for k, v in st.mem.items()}
            eng.encl.append(it); eng.dry += 1
            try:
                outs = eng.run_region(fr, L, H, st, None)
            finally:
                eng.encl.pop(); eng.dry -= 1
            if not outs.back:
                break
            back = phi_back(eng, fr, blk, outs.back)
            newM = {}
            for b in back:
                for k, c in b.mem.items():
                    r, key = k
                    if it_in(r.encl, it) : continue
                    c0 = start.get(k) or r.init.get(key)
                    if c0 is not None and c.same(c0): continue
                    if k not in M:
                        if c0 is None: continue
                        newM[k] = c.n
            if not newM: break
            M.update(newM)
        memo.update(M)
        if not outs.back:
            # body never comes back: execute once, precisely
            res = Outs()
            st = st0.fork()
            o = eng.run_region(fr, L, H, st, None)
            if o.back: raise Unsupported('loop shape')
            o2 = Outs(); o2.exits = o.exits; o2.rets = o.rets; o2.throws = o.throws
            return o2
        if len(back) > 1: raise Unsupported('unmergeable loop iterations in ' + lname)
        sb = back[0]
        cont = conj([c for k, c in sb.pc[mark:] if k == 'br'])
        facts = [c for k, c in sb.pc[mark:] if k == 'fact']
        # ---------------- Phase B: closed forms
        for lv in lvs:
            if lv.kind == 'phi': lv.final = sb.env[(path, '%s!next' % lv.id)]
            elif lv.kind == 'pphi':
                f = sb.env[(path, '%s!next' % lv.id)]
                v0 = lv.init
                if not (isinstance(f, Ptr) and f.r is v0.r and f.key() == v0.key()):
                    raise Unsupported('pointer loop variable %s' % lv.id)
                for x, y in zip(f.p[:-1], v0.p[:-1]):
                    if isinstance(x, tuple) and not x[1].eq(y[1]): raise Unsupported('pointer loop variable %s' % lv.id)
                lv.final = f.p[-1][1]; lv.init = v0.p[-1][1]
            elif lv.kind == 'ophi':
                lv.final = sb.env[(path, '%s!next' % lv.id)]
            elif lv.kind == 'cell':
                lv.final = sb.mem[lv.id].read([IntVal(0)] * lv.n)
            else:
                lv.final = sb.mem[lv.id]
            if lv.kind in ('phi', 'cell', 'pphi') and not z3.is_expr(lv.final):
                raise Unsupported('loop variable of changing kind %s' % (lv.id,))
        demoted = eng.statics.setdefault(('demoted', lname), {})
        eng.opaquer = opaque_regions(eng, fr, st0)
        sol = solve(eng, lvs, it, lname, st0, demoted, hints(eng, fr, L, lvs, st0, it))
        # ---------------- Phase C
        st = st0.fork()
        for lv in lvs:
            if lv.kind == 'phi': st.env[(path, lv.id)] = lv.closed
            elif lv.kind == 'pphi':
                p0 = st0.env[(path, lv.id)]
                st.env[(path, lv.id)] = Ptr(p0.r, p0.p[:-1] + (('d', lv.closed),))
            elif lv.kind == 'ophi': st.env[(path, lv.id)] = lv.closed
            elif lv.kind == 'cell': st.mem[lv.id] = Content(lv.closed, (), lv.n)
            elif lv.kind in ('mem', 'pmem'): st.mem[lv.id] = lv.closed
        pcmark0 = len(st.pc)
        st.fact(it >= 0)
        cont_c = simp(sol.apply(cont))
        prev = simp(substitute(cont_c, (it, it - 1)))
        if not is_true(prev): st.fact(Implies(it > 0, prev))
        jj = z3.Int('cj!')
        body_q = simp(substitute(cont_c, (it, jj)))
        qfact = None
        # facts established by earlier iterations about per-iteration symbols
        keep = []
        for f in facts:
            f2 = sol.apply(f)
            if has_q(f2): continue
            if any(x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and any(a.eq(it) for a in x.children())
                   and not is_sum(x) for x in walk_apps([f2])) or eng.keepsums and mentions(f2, {it.decl().name()}):
                keep.append(f2)
        if not is_true(body_q) or keep:
            b2 = simp(substitute(conj([cont_c] + keep), (it, jj)))
            if mentions(b2, {'cj!'}) :
                qfact = z3.ForAll([jj], Implies(And(jj >= 0, jj < it), b2))
        # range facts of machine integers at this iteration
        for lv in lvs:
            if lv.kind == 'phi' and lv.sort == I:
                ph = [p for p in blk.phis if p.res == lv.id][0]
                st.fact(simp(eng.inrange(lv.closed, int(ph.ty[1][1:]))))
            if lv.kind == 'cell' and lv.sort == I:
                st.fact(simp(eng.inrange(lv.closed, 64 if lv.id[1][-1] == '#' else 32)))
        if qfact is not None: st.fact(qfact)
        # auxiliary invariants: hinted ones, and surviving automatic candidates
        cands = eng.statics.setdefault(('cand', lname), {})
        autos = auto_cands(eng, lvs, it, st0, sol, cands, lname)
        for name, f in hint_invs(eng, fr, L, lvs, st0, it, sol, st):
            if cands.get(name) is False: continue
            if not initially(eng, cands, name, st0, simp(substitute(at_entry(lvs, f, it), (it, IntVal(0)))), 3000, None, given=True):
                if eng.opts.get('loops'): print('    given invariant', name, 'fails initially', '(generic)' if eng.dry else '')
                continue
            autos.append((name, f))
        for nm, f in autos: st.fact(f)
        mark2 = len(st.pc)
        eng.encl.append(it)
        nob = len(eng.obls)
        try:
            outs = eng.run_region(fr, L, H, st, None)
        finally:
            eng.encl.pop()
        ok = True
        if outs.back:
            back = phi_back(eng, fr, blk, outs.back)
            for b in back:
                # array closed forms
                for lv in lvs:
                    if lv.kind == 'mem' and lv.how == 'closed':
                        ck = ('ok', lname, lv.id)
                        tag = (attempt_key(lv), )
                        if eng.dry and eng.statics.get(ck) == 1: continue
                        sk = [z3.Int('k!%d' % i) for i in range(lv.n)]
                        fin = b.mem[lv.id].read(sk)
                        want = psubst(lv.closed.read(sk), [(it, it + 1)])
                        t = time.time()
                        hy = b.hyps() + [x >= 0 for x in sk]
                        eng.pr.deadline = clock() + prove.SCALE[0] * eng.opts.get('closed_limit', 25)
                        r = eng.pr.prove(hy, fin == want)
                        eng.pr.deadline = None
                        if eng.opts.get('loops') :
                            print('    closed form', lname, lv.id, r[0], '%.2fs' % (time.time() - t), flush=True)
                            if r[0] != 'proved' and eng.opts.get('loops') > 1: print(fin, '\n===\n', want, '\n', r[1], '\n hyps:', '\n   '.join(map(str, hy)))
                        if r[0] == 'proved':
                            eng.statics[ck] = 1
                            if not eng.dry:
                                eng.obls.append(Obl(eng.target, 'loop-closed-form', eng.short(fn.name) + ':' + H, '%s.%s' % (lv.id[0].name, lv.id[1]), 'proved', time.time() - t))
                        elif lv.given:
                            demoted[('hint', lv.id)] = True; ok = False
                        else:
                            demoted[lv.id] = True; ok = False
                for lv in lvs:
                    if lv.how == 'given':
                        if eng.dry and eng.statics.get(('ok', lname, lv.id)) == 1: continue
                        fin = b.env[(path, '%s!next' % lv.id)] if lv.kind == 'phi' else b.mem[lv.id].read([IntVal(0)] * lv.n)
                        t = time.time()
                        r = eng.pr.prove(b.hyps(), fin == substitute(lv.closed, (it, it + 1)))
                        if r[0] == 'proved':
                            eng.statics[('ok', lname, lv.id)] = 1
                            if not eng.dry: eng.obls.append(Obl(eng.target, 'loop-closed-form', eng.short(fn.name) + ':' + H, str(lv.id), 'proved', time.time() - t))
                        else:
                            if eng.opts.get('loops'): print('    given form of', lv.id, 'not preserved', r[1] if eng.opts['loops'] > 1 else '')
                            demoted[('hint', lv.id)] = True; ok = False
                if not ok: break
                for nm, f in autos:
                    if eng.dry and eng.statics.get(('cok', lname, nm)): continue
                    t = time.time()
                    eng.pr.deadline = clock() + prove.SCALE[0] * (5 if nm in eng.autonames else 25)
                    r = eng.pr.prove(b.hyps(), at_entry(lvs, f, it, True), timeout=2000)
                    eng.pr.deadline = None
                    if r[0] == 'proved':
                        eng.statics[('cok', lname, nm)] = True
                        if not eng.dry: eng.obls.append(Obl(eng.target, 'invariant', eng.short(fn.name) + ':' + H, 'inferred ' + nm, 'proved', time.time() - t))
                    else:
                        if eng.opts.get('loops') and nm not in eng.autonames: print('    given invariant', nm, 'not preserved', r[0], '%.2fs' % (time.time() - t), substitute(f, (it, it + 1)) if eng.opts['loops'] > 1 else '')
                        cands[nm] = False; ok = False
                        eng.statics.pop(('cok', lname, nm), None)
                        for kk in [kk for kk in eng.statics if kk[0] == 'cok' and kk[1] == lname]: del eng.statics[kk]
        if ok: break
        del eng.obls[nob:]
        M = dict(M)
    else:
        raise Unsupported('loop summary does not stabilise: ' + lname)
    if eng.opts.get('loops') and not eng.dry:
        print('  LOOP', lname)
        for lv in lvs:
            print('     ', lv.kind, lv.id, lv.how, (str(lv.closed) if z3.is_expr(lv.closed) else (lv.closed.ups if isinstance(lv.closed, Content) else lv.closed)) if eng.opts['loops'] > 1 else '')
    eng.loopinfo.append((eng.target, lname, [(str(lv.id), lv.how) for lv in lvs]))
    # ---------------- Phase D: exits
    res = Outs()
    single_exit = len(outs.exits) == 1 and not outs.rets and not outs.throws
    fam = family_contents(eng, back[0], it) if outs.back and len(back) == 1 else {}
    for s, frm, to in outs.exits:
        if fam: s = s.fork(); s.mem.update(fam)
        res.exits.append((finish(eng, s, it, pcmark0, lname + '@' + frm, single_exit, qfact), frm, to))
    # several edges to one block from inside the loop stay separate and are merged by the caller
    for s, v in outs.rets:
        s2 = s.fork()
        s2.env[('ret!', '')] = v if v is not None else UNDEF
        s2 = finish(eng, s2, it, pcmark0, lname + '@ret', False, qfact)
        v2 = s2.env.pop(('ret!', ''))
        res.rets.append((s2, v2 if v is not None else None))
    for s in outs.throws:
        res.throws.append(finish(eng, s, it, pcmark0, lname + '@throw', False, qfact))
    return res

def unroll(eng, fr, L, st0, n):
    """complete unrolling of a loop bounded by n iterations (the bound is an obligation)"""
    blk = fr.fn.blocks[L.header]
    res = Outs()
    cur = [st0]
    for k in range(n + 1):
        nxt = []
        for st in cur:
            o = eng.run_region(fr, L, L.header, st, None)
            res.exits += o.exits; res.rets += o.rets; res.throws += o.throws
            for s in phi_back(eng, fr, blk, o.back):
                for ph in blk.phis: s.env[(fr.path, ph.res)] = s.env.pop((fr.path, ph.res + '!next'))
                if eng.feasible(s, TRUE) and not eng.pr.quick(s.hyps(), FALSE): nxt.append(s)
        cur = nxt
        if not cur: return res
    for s in cur: eng.oblige(s, FALSE, 'unwinding', 'loop %s ends within %d iterations' % (L.header, n))
    return res

def opaque_regions(eng, fr, st):
    """memory designated by the local pointers declared opaque, and by the pointers stored there"""
    out = set()
    for name in eng.opaque:
        for v in [name] + fr.fn.vars.get(name, []):
            p = st.env.get((fr.path, v))
            if not isinstance(p, Ptr): continue
            out.add(p.r)
            for (r, key), c in st.mem.items():
                if r is p.r and c.isp: out |= {x.r for x in [c.base] + [u[1] for u in c.ups] if isinstance(x, Ptr)}
    return out

def attempt_key(lv): return 0

def it_in(encl, it):
    return any(x.eq(it) for x in encl)

def region_live(r, st): return r.outer or r in st.freed or any(k[0] is r for k in st.mem)     # not memory of an earlier trial run

def single(r, key):
    return key.count('*') == 1 and r.size is not None and ival(r.size) == 1 and not r.dims

def phi_back(eng, fr, blk, backs):
    out = []
    for s, frm in backs:
        for ph in blk.phis:
            for v, b in ph.a:
                if b == frm:
                    s.env[(fr.path, ph.res + '!next')] = eng.val(fr, s, v, ph.ty); break
        out.append(s)
    # phi results themselves are per-iteration: identical in all back states
    return eng.merge_list(out)

def hints(eng, fr, L, lvs, st0, it):
    out = {}
    for h in eng.loop_hints:
        r = h.closed(eng, fr, L, lvs, st0, it) if h.closed else None
        if r: out.update(r)
    return out

def at_entry(lvs, f, it, nxt=False):
    """f with loop-state functions that occur only at iteration `it` replaced by their initial values (to be
    taken at it=0), or, for nxt, f at it+1 with them replaced by the values the loop body computes"""
    subs = {}
    for lv in lvs:
        if lv.how == 'rec' and getattr(lv, 'rec', None) is not None:
            n = lv.n if lv.kind == 'mem' else 0
            if nxt: e = lv.recstep
            else: e = lv.init.expr() if lv.kind == 'mem' else lv.init
            subs[lv.rec.name()] = (lv.rec, n, substitute(e, *[(K[i], z3.Var(i, I)) for i in range(n)]) if n else e)
    if subs:
        seen = set(); st = [f]; bad = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().name() in subs and not x.arg(subs[x.decl().name()][1]).eq(it): bad.add(x.decl().name())
                st += x.children()
    prs = [(rf, e) for nm, (rf, n, e) in subs.items() if nm not in bad]
    if nxt: f = substitute(f, (it, it + 1))
    return z3.substitute_funs(f, *prs) if prs else f

def hint_invs(eng, fr, L, lvs, st0, it, sol, st):
    out = []
    for h in eng.loop_hints:
        if h.inv:
            eng.loopst = st
            r = h.inv(eng, fr, L, lvs, st0, it)
            if r: out += r
    return out

def solve(eng, lvs, it, lname, st0, demoted, hinted):
    sol = Solver(it)
    names = {}
    for lv in lvs:
        if lv.kind in ('phi', 'cell', 'pphi'): names[lv.sym.decl().name()] = lv
        elif lv.kind == 'mem': names[lv.fdecl.name()] = lv
    unsolved = set(names)
    def setc(lv, closed, how):
        lv.closed = closed; lv.how = how
        if lv.kind == 'mem':
            sol.add_fun(lv.fdecl, lv.n, closed); unsolved.discard(lv.fdecl.name())
        else:
            sol.add_const(lv.sym, closed); unsolved.discard(lv.sym.decl().name())
    for lv in lvs:
        lv.given = False
        if lv.id not in hinted or demoted.get(('hint', lv.id)): continue
        if lv.kind == 'mem':
            hk = ('hinit', lv.id)
            if hk not in demoted or not eng.dry:
                sk = [z3.Int('k!%d' % i) for i in range(lv.n)]
                g = lv.init.read(sk) == psubst(hinted[lv.id].read(sk), [(it, IntVal(0))]); hy = st0.hyps() + [x >= 0 for x in sk]
                memo = eng.statics.setdefault(('initially',), {}); ck = (str(hk), g.get_id(), tuple(h.get_id() for h in st0.hyps()))
                if ck not in memo: memo[ck] = (eng.pr.prove(hy, g)[0] == 'proved', g, hy)
                demoted[hk] = memo[ck][0]
                if eng.opts.get('loops') and not demoted[hk]: print('    given form of', lv.id, 'fails initially')
            if not demoted[hk]: continue
            lv.given = True; setc(lv, hinted[lv.id], 'closed')
        elif lv.kind in ('phi', 'cell'):
            hk = ('hinit', lv.id)
            if hk not in demoted or not eng.dry:
                demoted[hk] = eng.pr.prove(st0.hyps(), lv.init == substitute(hinted[lv.id], (it, IntVal(0))))[0] == 'proved'
            if not demoted[hk]: continue
            lv.given = True; setc(lv, hinted[lv.id], 'given')
    for lv in lvs:
        if lv.kind == 'mem' and (lv.id[0] in eng.opaquer or any(x in lv.id[0].name for x in eng.opaque)): demoted[lv.id] = True
    # rec symbols are introduced at the end
    progress = True
    while progress:
        progress = False
        for lv in lvs:
            if lv.closed is not None: continue
            if lv.kind in ('phi', 'cell', 'pphi'):
                me = lv.sym.decl().name()
                f = sol.apply(lv.final)
                if mentions(f, unsolved - {me}): continue
                f = simp(f)
                if f.eq(lv.sym): setc(lv, lv.init, 'constant'); progress = True; continue
                if lv.sort == B:
                    if not mentions(f, {me}):
                        setc(lv, simp(If(it > 0, substitute(f, (it, it - 1)), lv.init)), 'last'); progress = True
                    continue
                d = simplify(f - lv.sym)
                if mentions(d, {me}): 
                    d = simplify(f - lv.sym, som=True)
                if mentions(d, {me}):
                    d = push_sub(f, lv.sym)
                if d is not None and not mentions(d, {me}):
                    if not mentions(d, {it.decl().name()}) :
                        k = it if lv.sort == I else z3.ToReal(it)
                        setc(lv, simp(lv.init + d * k), 'linear')
                    else:
                        setc(lv, lv.init + Sum(IntVal(0), it, lambda j: substitute(d, (it, j))), 'sum')
                    progress = True; continue
                if not mentions(f, {me}):
                    setc(lv, simp(If(it > 0, substitute(f, (it, it - 1)), lv.init)), 'last'); progress = True; continue
            elif lv.kind == 'mem' and lv.id not in demoted:
                c = try_acc(eng, lv, sol, unsolved, it)
                if c is None: c = try_array(eng, lv, sol, unsolved, it, {lv.fdecl.name(): lv})
                if c is not None:
                    setc(lv, c, 'closed'); progress = True
            elif lv.kind == 'pmem':
                c = try_parray(eng, lv, sol, unsolved, it, st0)
                if c is not None: lv.closed = c; lv.how = 'closed'; progress = True
            elif lv.kind == 'ophi':
                if same(lv.final, lv.init): lv.closed = lv.init; lv.how = 'constant'; progress = True
        if not progress:
            # jointly modified arrays reading each other's original contents
            grp = [lv for lv in lvs if lv.kind == 'mem' and lv.closed is None and lv.id not in demoted]
            if grp:
                g = {lv.fdecl.name(): lv for lv in grp}
                got = [(lv, try_array(eng, lv, sol, unsolved, it, g)) for lv in grp]
                got = [(lv, c) for lv, c in got if c is not None]
                for lv, c in got: setc(lv, c, 'closed'); progress = True
    # last-value / recursive fallback
    rest = [lv for lv in lvs if lv.closed is None and lv.kind in ('phi', 'cell', 'pphi', 'mem')]
    recs = []
    for lv in rest:
        ne = len(eng.encl)
        if lv.kind == 'mem':
            nm = lv.fdecl.name() + '!rec'
            rf = z3.Function(nm, *([I] * (lv.n + 1 + ne)), lv.sort)
            app = rf(*K[:lv.n], it, *eng.encl)
            setc(lv, Content(app, (), lv.n), 'rec')
        else:
            nm = lv.sym.decl().name() + '!rec'
            rf = z3.Function(nm, *([I] * (1 + ne)), lv.sort)
            setc(lv, rf(it, *eng.encl), 'rec')
        lv.rec = rf
        recs.append(lv)
    # recursive functions used inside given (hinted) forms
    for lv in lvs:
        if lv.kind == 'mem' and lv.id in hinted and getattr(hinted[lv.id], 'rec', None): pass
    for lv in recs:
        if lv.kind == 'mem':
            step = sol.apply(lv.final.expr())
            init = lv.init.expr()
        else:
            step = sol.apply(lv.final); init = lv.init
        lv.recstep = step
        encl = list(eng.encl)
        n = lv.n if lv.kind == 'mem' else 0
        def inst(app, lv=lv, step=step, init=init, encl=encl, n=n):
            a = app.children()
            ks, t, en = a[:n], a[n], a[n+1:]
            pr = [(K[i], ks[i]) for i in range(n)] + [(e, x) for e, x in zip(encl, en)]
            i0 = substitute(init, *pr) if pr else init
            s0 = substitute(step, *(pr + [(it, t - 1)]))
            return [Implies(t == 0, app == i0), Implies(t > 0, app == simp(s0))]
        eng.pr.recnames[lv.rec.name()] = inst
    for lv in lvs:
        if lv.kind == 'ophi' and lv.closed is None:
            f = sol.apply(lv.final)
            lv.closed = ite(it > 0, psubst(f, [(it, it - 1)]), lv.init); lv.how = 'last'
        if lv.kind == 'pmem' and lv.closed is None:
            raise Unsupported('pointer array modified in loop %s: %r' % (lname, lv.id))
    return sol

def push_sub(f, x):
    """f - x for f an if-then-else tree over x"""
    if z3.is_app_of(f, z3.Z3_OP_ITE):
        a = push_sub(f.arg(1), x); b = push_sub(f.arg(2), x)
        if a is None or b is None: return None
        if mentions(f.arg(0), {x.decl().name()}): return None
        return simplify(If(f.arg(0), a, b))
    d = simplify(f - x, som=True)
    if mentions(d, {x.decl().name()}): return None
    return d

def inverse_of(cond, it, n):
    """find which iteration wrote index K: returns (J, rest conjuncts) or None"""
    cs = conjuncts(cond)
    for i, c in enumerate(cs):
        if not z3.is_eq(c): continue
        l, r = c.arg(0), c.arg(1)
        if l.sort() != I: continue
        d = l - r
        cn = consts_of(c)
        if it.decl().name() not in cn: continue
        if not any(('K!%d' % k) in cn for k in range(n)): continue
        x = lin(simplify(d), it)
        if x is None:
            x = lin_sym(simplify(d, som=True), it)
            if x is None: continue
            co, e0 = x
            # symbolic stride: J = -e0 div co when divisible
            J = simplify((-e0) / co)
            return J, [z for k, z in enumerate(cs) if k != i] + [(-e0) % co == 0]
        co, e0 = x
        if co == 0: continue
        if abs(co) == 1:
            J = simplify(-e0 if co == 1 else e0)
            return J, [z for k, z in enumerate(cs) if k != i]
        J = simplify((-e0) / co) if co > 0 else simplify(e0 / (-co))
        return J, [z for k, z in enumerate(cs) if k != i] + [simplify(e0 % abs(co) == 0)]
    return None

def lin_sym(d, it):
    """d = co*it + e0 with co an it-free term"""
    e0 = simplify(substitute(d, (it, IntVal(0))))
    e1 = simplify(substitute(d, (it, IntVal(1))))
    co = simplify(e1 - e0, som=True)
    if mentions(co, {it.decl().name()}): return None
    z = simplify(d - (co * it + e0), som=True)
    if ival(z) == 0: return co, e0
    return None

def try_array(eng, lv, sol, unsolved, it, selfnames):
    """guess closed form for array content; reads of arrays in selfnames are taken to be of entry contents"""
    fin = lv.final
    if not (z3.is_app(fin.base) and fin.base.eq(lv.fdecl(*K[:lv.n]))):
        # base replaced completely (e.g. whole-array assignment)
        base_changed = True
    else: base_changed = False
    s2 = Solver(it)
    s2.cpairs = list(sol.cpairs); s2.fpairs = list(sol.fpairs)
    for nm, o in selfnames.items():
        s2.add_fun(o.fdecl, o.n, o.init)
    bad = unsolved - set(selfnames)
    ups = []
    if base_changed:
        b = s2.apply(fin.base)
        if vmentions(b, bad): return None
        ups.append((it > 0, psubst(b, [(it, it - 1)])))
    for c, v in fin.ups:
        c2 = s2.apply(c)
        v2 = s2.apply(v)
        if mentions(c2, bad) or vmentions(v2, bad): return None
        c2 = simp(c2)
        inv = inverse_of(c2, it, lv.n)
        if inv is not None:
            J, rest = inv
            cc = conj([simp(substitute(x, (it, J))) for x in rest] + [J >= 0, J < it])
            vv = simp(substitute(v2, (it, J)))
            ups.append((simp(cc), vv))
        else:
            J = it - 1
            ups.append((simp(And(it > 0, substitute(c2, (it, J)))), simp(substitute(v2, (it, J)))))
    return Content(lv.init.base, lv.init.ups + tuple(ups), lv.n)

def try_acc(eng, lv, sol, unsolved, it):
    """element-wise accumulation: every update adds a term free of the array to the element itself"""
    fin = lv.final
    own = lv.fdecl(*K[:lv.n])
    if not (z3.is_app(fin.base) and fin.base.eq(own)) or lv.sort not in (I, R): return None
    me = lv.fdecl.name(); bad = unsolved - {me}
    zero = RealVal(0) if lv.sort == R else IntVal(0)
    delta = zero; acc = False; conds = []; copies = []; seen = []
    itn = {it.decl().name()}
    for c, v in fin.ups:
        c2 = sol.apply(c); v2 = sol.apply(v)
        src = [ix for v0, ix in seen if z3.is_expr(v2) and v2.eq(v0)]
        if src and not mentions(c2, bad | {me} | itn):
            # a copy of the element just accumulated
            copies.append((simp(c2), src[0])); continue
        if copies: return None
        if z3.is_expr(v2):
            ix = pinned(simp(c2), lv.n)
            if ix is not None and not any(mentions(x, itn) for x in ix): seen.append((v2, ix))
        if not z3.is_expr(v2) or v2.sort() != lv.sort: return None
        if mentions(c2, bad | {me}) or mentions(v2, bad): return None
        c2 = simp(c2)
        cs = conjuncts(c2)
        for app in [x for x in walk_apps([v2]) if x.decl().eq(lv.fdecl)]:
            ok = True
            for i in range(lv.n):
                a = app.arg(i)
                if a.eq(K[i]): continue
                if any(z3.is_eq(x) and ((x.arg(0).eq(K[i]) and x.arg(1).eq(a)) or (x.arg(1).eq(K[i]) and x.arg(0).eq(a)) or simplify((x.arg(0) - x.arg(1)) - (K[i] - a)).eq(IntVal(0)) or simplify((x.arg(0) - x.arg(1)) + (K[i] - a)).eq(IntVal(0))) for x in cs if z3.is_eq(x) and x.arg(0).sort() == I): continue
                ok = False
            if not ok: return None
            v2 = substitute(v2, (app, own))
        if mentions(v2, {me}):
            acc = True
            if mentions(c2, {it.decl().name()}) and inverse_of(c2, it, lv.n) is not None: return None   # each element at most once
        d = push_sub2(simp(v2), own)
        if d is None: return None
        delta = If(c2, d, delta); conds.append(c2)
    if not acc: return None
    delta = simp(delta)
    init = lv.init.expr()
    if len(conds) == 1 and not mentions(conds[0], itn):
        cond = conds[0]; dd = d
    else:
        cond = TRUE; dd = delta
    if not mentions(dd, itn): s = dd * (z3.ToReal(it) if lv.sort == R else it)
    else: s = Sum(IntVal(0), it, lambda j: substitute(dd, (it, j)))
    r = Content(lv.init.base, lv.init.ups + ((cond, init + s),), lv.n)
    if copies: r = Content(r.base, r.ups + tuple((simp(And(it > 0, cc)), r.read(ix)) for cc, ix in copies), lv.n)
    return r

def pinned(c, n):
    """the index fixed by the condition of an update of a single element"""
    out = [None] * n
    for x in conjuncts(c):
        if not z3.is_eq(x) or x.arg(0).sort() != I: continue
        for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            for i in range(n):
                if a.eq(K[i]) and not any(mentions(b, {K[j].decl().name()}) for j in range(n)): out[i] = b
    return None if None in out else out

def push_sub2(f, own):
    if z3.is_app_of(f, z3.Z3_OP_ITE):
        a = push_sub2(f.arg(1), own); b = push_sub2(f.arg(2), own)
        if a is None or b is None or mentions(f.arg(0), {own.decl().name()}): return None
        return simplify(If(f.arg(0), a, b))
    d = simplify(f - own)
    if mentions(d, {own.decl().name()}): d = simplify(f - own, som=True)
    return None if mentions(d, {own.decl().name()}) else d

def try_parray(eng, lv, sol, unsolved, it, st0):
    fin = lv.final
    c0 = lv.init
    # final is built on the entry content itself (pointer contents are not made generic)
    if not same(fin.base, c0.base) or len(fin.ups) < len(c0.ups): return None
    for a, b in zip(fin.ups, c0.ups):
        if not (a[0].eq(b[0]) and same(a[1], b[1])): return None
    ups = []
    for c, v in fin.ups[len(c0.ups):]:
        c2 = simp(sol.apply(c)); 
        if mentions(c2, unsolved) or vmentions(v, unsolved): return None
        inv = inverse_of(c2, it, lv.n)
        if inv is None: return None
        J, rest = inv
        v = sol.apply(v)
        if isinstance(v, Ptr) and it_in(v.r.encl, it):
            # one fresh region per iteration: turn it into a family indexed by the iteration
            v = Ptr(family(eng, v.r, it), (('d', it),) + v.p)
        cc = conj([simp(substitute(x, (it, J))) for x in rest] + [J >= 0, J < it])
        ups.append((simp(cc), psubst(v, [(it, J)])))
    return Content(c0.base, c0.ups + tuple(ups), c0.n, True)

def family(eng, r, it):
    key = ('family', r.name)
    f = eng.statics.get(key)
    if f is None:
        f = Region(r.name + '!fam', r.ty, None, undef=r.undef)
        sz = r.size
        if r.dims: f.dims = [None] + [None if d is None else (lambda i, *rest, d=d: substitute(d(*rest) if callable(d) else d, (it, i))) for d in r.dims]
        else: f.dims = [None, (lambda i, sz=sz: substitute(sz, (it, i))) if sz is not None else None]
        if f.dims[-1] is None:      # the extent is known once the element type is
            if getattr(r, 'bytesf', None): f.bytesf = lambda i, *rest, g=r.bytesf: substitute(g(*rest), (it, i))
            elif r.bytes is not None and not r.dims: f.bytesf = lambda i, b=r.bytes: substitute(b, (it, i))
            else: raise Unsupported('rows of unknown extent: ' + r.name)
        f.encl = tuple(x for x in r.encl if not x.eq(it)); f.outer = False
        if getattr(r, 'zero', False): f.zero = True
        eng.statics[key] = f
    return f

# ------------------------------------------------------------------ exits
def family_contents(eng, b, it):
    """pointers stored by one iteration in memory of its own, as contents of the families of such memory"""
    out = {}
    def shift(e): return substitute(e, *([(K[i], K[i + 1]) for i in range(3)] + [(it, K[0])]))
    def val(v):
        if not isinstance(v, Ptr): return None
        r = v.r; p = tuple(('d', shift(x[1])) if isinstance(x, tuple) else x for x in v.p)
        return Ptr(family(eng, r, it), (('d', K[0]),) + p) if it_in(r.encl, it) else Ptr(r, p)
    for (r, key), c in b.mem.items():
        if not c.isp or not it_in(r.encl, it) or not isinstance(c.base, (Undef, Ptr)) or c.n > 2: continue
        ups = [(shift(a), val(v)) for a, v in c.ups]; base = c.base if isinstance(c.base, Undef) else val(c.base)
        if base is None or any(v is None for a, v in ups): continue
        out[(family(eng, r, it), ('*',) + key)] = Content(base, ups, c.n + 1, True)
    return out

def finish(eng, s, it, mark, name, single_exit, qfact):
    """express the exit state in terms of the number of completed iterations"""
    suffix = s.pc[mark:]
    T = exit_count(eng, s, it, suffix)
    if T is None:
        T = eng.sym(name + '!n', I)
    pairs = [(it, T)]
    out = State()
    for k, v in s.env.items(): out.env[k] = psub2(v, pairs)
    for k, c in s.mem.items():
        if it_in(k[0].encl, it): continue
        out.mem[k] = csub(c, pairs)
    out.freed = {k: substitute(v, *pairs) for k, v in s.freed.items()}
    pc = list(s.pc[:mark])
    out.pc = tuple(pc)
    for k, c in suffix:
        if qfact is not None and c is qfact:
            j = z3.Int('cj!')
            inst = c.body()
            c2 = substitute(c, *pairs)
            # drop when it follows from linear arithmetic alone
            b = substitute_bound(c2)
            if b is not None and eng.pr.quick([x for _, x in out.pc], b, 100): continue
            out.fact(c2); continue
        c2 = simp(substitute(c, *pairs))
        if is_true(c2): continue
        if k == 'br' and single_exit: k = 'fact'
        if k == 'br': out.br(c2)
        else: out.fact(c2)
    return out

def substitute_bound(q):
    """body of a ForAll with its variable replaced by a fresh constant"""
    if not z3.is_quantifier(q): return None
    b = z3.substitute_vars(q.body(), z3.Int('cjq!'))
    if has_q(b): return None
    return b

def psub2(v, pairs):
    if isinstance(v, Agg): return Agg([psub2(x, pairs) for x in v.els])
    nm = [p[0].decl().name() for p in pairs]
    if z3.is_expr(v) and not mentions(v, set(nm)): return v
    r = psubst(v, pairs)
    return simp(r) if z3.is_expr(r) else r

def csub(c, pairs):
    nm = set(p[0].decl().name() for p in pairs)
    if not vmentions(c.base, nm) and not any(mentions(a, nm) or vmentions(b, nm) for a, b in c.ups): return c
    return Content(psubst(c.base, pairs), [(simp(substitute(a, *pairs)), psub2(b, pairs)) for a, b in c.ups], c.n, c.isp)

def exit_count(eng, s, it, suffix):
    """find a term T equal to the iteration count under the exit condition"""
    nm = {it.decl().name()}
    hy = s.hyps()
    cands = []
    for k, c in suffix:
        if has_q(c): continue
        for a in atoms(c):
            if not mentions(a, nm) or not a.num_args() == 2: continue
            l, r = a.arg(0), a.arg(1)
            if l.sort() != I: continue
            x = lin(simplify(l - r), it)
            if x is None or x[0] == 0: continue
            co, e0 = x
            # co*it + e0 (rel) 0 : thresholds
            if abs(co) == 1:
                t = simplify(-e0 if co == 1 else e0)
                for d in (0, 1, -1): cands.append(simplify(t + d))
            else:
                q = simplify((-e0) / co) if co > 0 else simplify(e0 / (-co))
                for d in (0, 1): cands.append(simplify(q + d))
                qc = simplify(-(e0 / co)) if co > 0 else simplify(-((-e0) / (-co)))
                for d in (0, 1): cands.append(simplify(qc + d))
        if len(cands) > 24: break
    seen = []
    if eng.pr.quick(hy, it == 0): return IntVal(0)
    for t in cands:
        if any(t.eq(u) for u in seen) or mentions(t, nm): continue
        seen.append(t)
    # prefer plain terms
    for t in seen:
        if eng.pr.quick(hy, it == t): return t
    for t in seen:
        m = simplify(If(t > 0, t, 0))
        if eng.pr.quick(hy, it == m): return m
    return None

def atoms(c):
    out = []
    st = [c]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
            st.extend([y for y in x.children() if y.sort() == B])
        elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            out.append(x)
    return out

# ------------------------------------------------------------------ automatic candidate invariants
def ite_leaves(e, x=None, out=None):
    out = [] if out is None else out
    if z3.is_app_of(e, z3.Z3_OP_ITE) and (x is None or any(l.eq(x) for l in ite_leaves(e))):
        ite_leaves(e.arg(1), x, out); ite_leaves(e.arg(2), x, out)
    else:
        out.append(e)
    return out

def initially(eng, cands, nm, st0, g, timeout, limit, given=False):
    """does the candidate hold at loop entry? In trial runs the answer is remembered; in the run whose obligations count it is
    proved again whenever the hypotheses differ"""
    if eng.dry and nm in cands: return cands[nm]
    hy = st0.hyps()
    dk = ('trial', nm) if given and eng.dry else nm     # trial runs lack facts of enclosing loops: no verdict on given invariants
    memo = eng.statics.setdefault(('initially',), {}); ck = (nm, g.get_id(), tuple(h.get_id() for h in hy))
    if ck not in memo:
        if eng.dry and dk in cands: return cands[dk]
        if limit: eng.pr.deadline = clock() + limit * prove.SCALE[0]
        memo[ck] = (eng.pr.prove(hy, g, timeout=timeout)[0] == 'proved', g, hy)
        eng.pr.deadline = None
    cands[dk] = memo[ck][0]
    return memo[ck][0]

def auto_cands(eng, lvs, it, st0, sol, cands, lname):
    """candidate invariants (Houdini style) for variables without a closed form"""
    out = []
    def add(nm, f):
        if cands.get(nm) is False: return
        # must hold initially
        eng.autonames.add(nm)
        if initially(eng, cands, nm, st0, simp(substitute(f, (it, IntVal(0)))), 1000, 3): out.append((nm, f))
    j = z3.Int('aj!')
    recs = [lv for lv in lvs if lv.how == 'rec' and lv.kind in ('phi', 'cell', 'pphi')]
    for lv in recs:
        x = lv.closed
        step = sol.apply(lv.final)
        lv_leaves = [l for l in ite_leaves(step, x) if not l.eq(x)]
        nm0 = str(lv.id)
        if lv.sort in (I, R):
            add(nm0 + '>=init', x >= lv.init)
            add(nm0 + '<=init', x <= lv.init)
        for i, l in enumerate(lv_leaves):
            if mentions(l, {lv.rec.name()}): 
                continue
            lj = substitute(l, (it, j))
            if lv.sort == R:
                add('%s upper%d' % (nm0, i), z3.ForAll([j], Implies(And(j >= 0, j < it), lj <= x)))
                add('%s lower%d' % (nm0, i), z3.ForAll([j], Implies(And(j >= 0, j < it), lj >= x)))
                add('%s attained%d' % (nm0, i), Or(x == lv.init, z3.Exists([j], And(j >= 0, j < it, x == lj))))
            if lv.sort == I:
                ll = lin(simplify(l), it)
                if ll is not None and ll[0] != 0:
                    co, e0 = ll
                    # value written at iteration j<it
                    add('%s range%d' % (nm0, i), Or(x == lv.init, And(x >= e0, x < e0 + co * it) if co > 0 else And(x <= e0, x > e0 + co * it)))
                    if abs(co) == 1:
                        jx = simplify((x - e0) * co)
                        for lv2 in recs:
                            if lv2.sort != R: continue
                            for q, l2 in enumerate(ite_leaves(sol.apply(lv2.final), lv2.closed)):
                                if l2.eq(lv2.closed) or mentions(l2, {lv2.rec.name(), lv.rec.name()}): continue
                                lj = substitute(l2, (it, j))
                                for tag, lo, hi in (('before', IntVal(0), jx), ('after', jx + 1, it)):
                                    for t2, rel in (('<', lj < lv2.closed), ('>', lj > lv2.closed)):
                                        # starting value: index init corresponds to iteration jx at init
                                        add('%s %s %s %s %d.%d' % (lv2.id, t2, tag, nm0, i, q), z3.ForAll([j], Implies(And(j >= lo, j < hi), rel)))
                        for lv2 in recs:
                            if lv2.sort != R: continue
                            s2 = sol.apply(lv2.final)
                            for q, l2 in enumerate(ite_leaves(s2, lv2.closed)):
                                if l2.eq(lv2.closed) or mentions(l2, {lv2.rec.name(), lv.rec.name()}): continue
                                add('%s at %s %d.%d' % (lv2.id, nm0, i, q), Or(And(x == lv.init, lv2.closed == lv2.init), And(jx >= 0, jx < it, lv2.closed == substitute(l2, (it, jx)))))
    return out
