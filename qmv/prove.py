"""Discharging obligations: z3 with instantiated lemmas for SUM and recursive
definitions; every lemma scheme used here is listed in LEMMAS (trusted base)."""
import z3, time, itertools
from time import process_time as clock
from .core import *

LEMMAS = [
 'SUM congruence: SUM(n,f)=SUM(n,g) when f,g agree pointwise on [0,n) (pointwise agreement is itself a discharged query)',
 'SUM unfolding: SUM(n,f)=0 for n<=0; SUM(n+1,f)=SUM(n,f)+f(n) for n>=0',
 'SUM linearity in a constant factor (c*SUM(n,f)=SUM(n,c*f)), when requested',
 'ground instances of: sqrt(x)>=0 and sqrt(x)^2=x for x>=0; exp(x)>0; -1<=sin,cos<=1',
 'congruence: equal arguments give equal results, after deciding / splitting on index conditions',
 'modulo: (.. + c*(a mod n) ..) mod n = (.. + c*a ..) mod n and 0<=x mod n<n for n>0',
 'congruence of primitive-recursive spec functions: equal results at t when their array arguments agree on the positions the recursion reads (checked when the function is declared)',
 'unfolding of primitive-recursive spec functions at the terms occurring in the query',
 'unfolding of recursive loop-state functions at the iteration terms occurring in the query',
]

SCALE = [1.0]     # multiplies every time limit (raised when an obligation is retried)
RECFUNS = {}   # spec functions defined by primitive recursion (see dsl.RecFun)

class Stats:
    def __init__(self):
        self.n = 0; self.t = 0.0; self.unknown = 0; self.by = {}
STATS = Stats()

UF = {}
def uf(name, nargs=1):
    k = (name, nargs)
    if k not in UF: UF[k] = z3.Function(name, *([R]*nargs), R)
    return UF[k]

def walk_apps(es):
    """all closed application subterms (not under binders)"""
    seen = set(); out = []
    st = list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            out.append(x); st.extend(x.children())
    return out

def is_sum(x):
    return z3.is_app(x) and x.decl().name() in ('SUM', 'SUMI') and x.num_args() == 2

def linear_atoms(x):
    if z3.is_add(x) or z3.is_sub(x):
        out = []
        for c in x.children(): out += linear_atoms(c)
        return out
    if z3.is_mul(x):
        ch = x.children()
        if len(ch) == 2 and z3.is_int_value(ch[0]): return linear_atoms(ch[1])
        return []
    if z3.is_app_of(x, z3.Z3_OP_UMINUS): return linear_atoms(x.arg(0))
    return [x]

def isdef(h): return z3.is_quantifier(h) and h.is_forall() and h.var_name(0) == 'nm!j'
def is_ord(x):
    return z3.is_app(x) and x.decl().name() in ('ORDSTAT', 'ORDSTATI')

def lam_apply(l, t):
    if z3.is_quantifier(l) and l.is_lambda():
        return simplify(z3.substitute_vars(l.body(), t))
    return simplify(z3.Select(l, t))

class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.recdefs = []      # list of functions: app term -> list of axiom instances
        self.recnames = {}
        self.sk = itertools.count()
        self.quickcache = {}
        self.sumfail = {}
        self.log = []
        self.deadline = None; self.withdefs = False

    def check(self, hyps, goal, timeout=None):
        """raw: returns 'proved' / 'refuted' / 'unknown', model"""
        s = z3.Solver()
        s.set('timeout', int(SCALE[0] * (timeout or self.timeout)))
        for h in hyps: s.add(h)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        STATS.n += 1; STATS.t += time.time() - t
        if r == z3.unsat: return 'proved', None
        if r == z3.sat: return 'refuted', s.model()
        STATS.unknown += 1
        return 'unknown', None

    def quick(self, hyps, goal, timeout=150):
        """cheap validity test with interpreted arithmetic only"""
        g = simplify(goal)
        if is_true(g): return True
        if is_false(g) : pass
        key = (tuple(h.get_id() for h in hyps), g.get_id())
        r = self.quickcache.get(key)
        if r is None:
            qf = [h for h in hyps if not has_q(h)]
            r = False
            if index_cond(g):
                ix = [h for h in qf if index_cond_c(h)]
                if len(ix) < len(qf): r = (self.check(ix, g, timeout)[0] == 'proved')
            if not r: r = (self.check(qf, g, timeout)[0] == 'proved')
            self.quickcache[key] = r
            self.log.append((hyps, g))   # keep terms alive
        return r

    # ---- lemma instantiation -------------------------------------------
    def augment(self, hyps, goal, depth, fuel=2):
        extra = []
        done = set()
        pool = list(hyps) + [goal]
        for rnd in range(fuel):
            apps = walk_apps(pool + extra)
            new = []
            for a in apps:
                if a.get_id() in done: continue
                done.add(a.get_id())
                d = a.decl()
                if d.kind() == z3.Z3_OP_MOD and ival(a.arg(1)) is None:
                    x, n = a.arg(0), a.arg(1)
                    prs = [(y, y.arg(0)) for y in linear_atoms(x) if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MOD and y.arg(1).eq(n)]
                    if prs:
                        new.append(Implies(n > 0, a == simplify(z3.substitute(x, *prs)) % n))
                    new.append(Implies(n > 0, And(a >= 0, a < n)))
                    new.append(Implies(And(x >= 0, x < n), a == x))
                    self.log.append(a); continue
                if d.kind() != z3.Z3_OP_UNINTERPRETED or a.num_args() == 0: continue
                nm = d.name()
                if nm == 'sqrt':
                    x = a.arg(0); new.append(Implies(x >= 0, And(a >= 0, a * a == x)))
                elif nm == 'exp': new.append(a > 0)
                elif nm in ('sin', 'cos'): new.append(And(a <= 1, a >= -1))
                elif nm in self.recnames:
                    new.extend(self.recnames[nm](a))
                elif nm in RECFUNS:
                    rf, j = RECFUNS[nm]; new.extend(rf.inst(j, a))
                self.log.append(a)
            if not new: break
            extra += new
        return extra

    def sums(self, hyps, goal, depth, timeout):
        """SUM lemma instances relevant for goal"""
        extra = []
        gs = [x for x in walk_apps([goal]) if is_sum(x)]
        hs = [x for x in walk_apps(hyps) if is_sum(x)]
        alls = {}
        for x in gs + hs: alls.setdefault(x.get_id(), x)
        gids = set(x.get_id() for x in gs)
        L = list(alls.values())
        for x in L:
            n = x.arg(0)
            v = ival(n)
            zero = RealVal(0) if x.sort() == R else IntVal(0)
            if v is not None:
                if v <= 0: extra.append(x == zero); continue
                if v <= 16:
                    acc = zero
                    for i in range(v): acc = acc + lam_apply(x.arg(1), IntVal(i))
                    extra.append(x == acc); continue
            extra.append(Implies(n <= 0, x == zero))
        if depth > 3: return extra
        # order statistics: congruence
        og = [x for x in walk_apps([goal]) if is_ord(x)]
        if og:
            og += [x for x in walk_apps(hyps) if is_ord(x)]
            og = list({x.get_id(): x for x in og}.values())
            groups = []
            for x in og:
                for g in groups:
                    y = g[0]
                    if x.arg(1).eq(y.arg(1)) and x.arg(0).eq(y.arg(0)): g.append(x); break
                else: groups.append([x])
            for a in range(len(groups)):
                for b in range(a + 1, len(groups)):
                    x, y = groups[a][0], groups[b][0]
                    if not x.decl().eq(y.decl()): continue
                    if not (x.arg(0).eq(y.arg(0)) or self.quick(hyps, x.arg(0) == y.arg(0))): continue
                    j = z3.Int('sum!%d' % next(self.sk))
                    fx = lam_apply(x.arg(1), j); fy = lam_apply(y.arg(1), j)
                    if fx.eq(fy) or self.prove(list(hyps) + [j >= 0, j < x.arg(0)], fx == fy, depth + 1, min(timeout, 3000))[0] == 'proved':
                        for u in groups[a]:
                            for v in groups[b]:
                                extra.append(Implies(u.arg(2) == v.arg(2), u == v))
            for g in groups:
                for u, v in itertools.combinations(g, 2): extra.append(Implies(u.arg(2) == v.arg(2), u == v))
        if not gs: return extra
        for a in range(len(L)):
            for b in range(a + 1, len(L)):
                x, y = L[a], L[b]
                if x.sort() != y.sort(): continue
                if not (x.get_id() in gids or y.get_id() in gids): continue
                if x.arg(1).eq(y.arg(1)):
                    pw = True
                else:
                    pw = None
                nx, ny = x.arg(0), y.arg(0)
                # which relation between the lengths?
                d = simplify(nx - ny); dv = ival(d)
                if dv is not None and dv not in (0, 1, -1): continue
                if dv is None:
                    if self.quick(hyps, nx == ny): dv = 0
                    elif self.quick(hyps, nx == ny + 1): dv = 1
                    elif self.quick(hyps, ny == nx + 1): dv = -1
                    else: continue
                small = nx if dv <= 0 else ny
                if pw is None:
                    j = z3.Int('sum!%d' % next(self.sk))
                    fx = lam_apply(x.arg(1), j); fy = lam_apply(y.arg(1), j)
                    hy = list(hyps) + [j >= 0, j < small]
                    # attempts at a pair that keep failing get less time
                    fk = (x.arg(1).get_id(), y.arg(1).get_id()); nf = self.sumfail.get(fk, (0,))[0]
                    pw = fx.eq(fy) or self.congr(hy, fx, fy, clock() + SCALE[0] * (1 if nf < 2 else 0.15), 2)
                    if not pw: self.sumfail[fk] = (nf + 1, x, y)
                    if not pw and depth < 2 and (len(L) <= 8 and shape(fx) == shape(fy) or not heavy(fx == fy)):
                        if self.deadline and clock() > self.deadline: return extra
                        pw = self.prove(hy, fx == fy, depth + 1, min(timeout, 3000))[0] == 'proved'
                if not pw: continue
                if dv == 0: extra.append(x == y)
                elif dv == 1: extra.append(Implies(ny >= 0, x == y + lam_apply(x.arg(1), ny)))
                else: extra.append(Implies(nx >= 0, y == x + lam_apply(y.arg(1), nx)))
        # unfold a goal sum over n+1 when its shorter form does not occur
        for x in gs:
            n = simplify(x.arg(0))
        return extra

    def defeq(self, hyps, goal):
        """equation between a defined name and a term congruent to its definition"""
        hyps = list(hyps)
        for _ in range(4):
            if z3.is_quantifier(goal) and goal.is_forall() and goal.num_vars() == 1: goal = z3.substitute_vars(goal.body(), z3.Const('sk!%d' % next(self.sk), goal.var_sort(0)))
            elif z3.is_implies(goal): hyps.append(goal.arg(0)); goal = goal.arg(1)
            elif z3.is_or(goal):
                es = [x for x in goal.children() if z3.is_eq(x) and x.arg(0).sort() != B]
                if len(es) != 1: return False
                hyps += [simplify(Not(x)) for x in goal.children() if not x.eq(es[0])]; goal = es[0]
        if not z3.is_eq(goal): return False
        for i in (0, 1):
            a, b = goal.arg(i), goal.arg(1 - i)
            if not (z3.is_app(a) and '@def!' in a.decl().name()): continue
            for h in hyps:
                if not isdef(h): continue
                q = simplify(z3.substitute_vars(h.body(), a.arg(0))); g, e = (q.arg(0), q.arg(1)) if z3.is_implies(q) else (TRUE, q)
                if z3.is_or(q): ch = q.children(); e = [x for x in ch if z3.is_eq(x) and x.sort() == B and x.arg(0).sort() == a.sort()][-1:]; e = e[0] if e else q; g = And(*[Not(x) for x in ch if not x.eq(e)])
                if not z3.is_eq(e): continue
                v = e.arg(1) if e.arg(0).eq(a) else e.arg(0) if e.arg(1).eq(a) else None
                if v is None or not self.quick(hyps, g): continue
                if self.congr([x for x in hyps if not isdef(x)], v, b, clock() + 6 * SCALE[0]): return True
        return False

    def prove(self, hyps, goal, depth=0, timeout=None):
        if any('@def!' in n for n in consts_of(goal)) and self.defeq(hyps, simplify(goal)): return 'proved', None
        # definitions of names are left out first (fewer hypotheses: sound)
        if depth == 0 and not self.withdefs and any(isdef(h) for h in hyps):
            hs = [h for h in hyps if not isdef(h)]; self.withdefs = True
            try:
                dl = self.deadline; self.deadline = min(x for x in (dl, clock() + 10 * SCALE[0]) if x)
                try: r = self.prove(hs, goal, depth, timeout)
                finally: self.deadline = dl
                return r if r[0] == 'proved' else self.prove(hyps, goal, depth, timeout)
            finally: self.withdefs = False
        timeout = timeout or self.timeout
        goal = simplify(goal)
        if is_true(goal): return 'proved', None
        # structural
        if z3.is_and(goal):
            for g in goal.children():
                r = self.prove(hyps, g, depth, timeout)
                if r[0] != 'proved': return r
            return 'proved', None
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const('sk!%d!%s' % (next(self.sk), goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
            body = z3.substitute_vars(goal.body(), *reversed(vs))
            return self.prove(hyps, body, depth, timeout)
        if z3.is_implies(goal):
            return self.prove(list(hyps) + [goal.arg(0)], goal.arg(1), depth, timeout)
        if z3.is_or(goal):
            # move negated literals to hypotheses when one disjunct is a quantifier or an equation over SUM
            ch = goal.children()
            qs = [c for c in ch if z3.is_quantifier(c) and c.is_forall()]
            if qs:
                rest = [c for c in ch if not c.eq(qs[0])]
                return self.prove(list(hyps) + [simplify(Not(c)) for c in rest], qs[0], depth, timeout)
            ands = [c for c in ch if z3.is_and(c) and heavy(c)]
            if len(ands) == 1:
                rest = [c for c in ch if not c.eq(ands[0])]
                return self.prove(list(hyps) + [simplify(Not(c)) for c in rest], ands[0], depth, timeout)
            eqs = [c for c in ch if z3.is_eq(c)]
            if eqs:
                tgt = eqs[-1]
                rest = [c for c in ch if not c.eq(tgt)]
                return self.prove(list(hyps) + [simplify(Not(c)) for c in rest], tgt, depth, timeout)
        hyps = list(hyps)
        if self.deadline and clock() > self.deadline: return 'unknown', None
        if z3.is_quantifier(goal) and goal.is_exists() and depth < 3:
            r = self.prove_exists(hyps, goal, depth, timeout)
            if r: return 'proved', None
        if depth == 0 and heavy(goal):
            hyps = self.instantiate(hyps, goal)
        # 0. equality of large terms: congruence after deciding the index conditions
        if z3.is_eq(goal) and goal.arg(0).sort() == R and depth < 3 and heavy(goal):
            t0 = time.time()
            if self.congr(hyps, goal.arg(0), goal.arg(1), clock() + SCALE[0] * (6 if depth == 0 else 2)):
                self.congr_hits = getattr(self, 'congr_hits', 0) + 1
                return 'proved', None
        # 1. directly
        r, m = self.check(hyps, goal, min(timeout, 500 if depth else 1500))
        if r == 'proved': return r, None
        # 2. with lemmas
        ex = self.augment(hyps, goal, depth)
        allh = hyps + ex
        sx = self.sums(allh, goal, depth, timeout)
        if ex or sx:
            h2, g2 = abstract_sums(allh + sx, goal)
            r, m = self.check(h2, g2, timeout)
            if r == 'proved': return r, None
        if depth == 0 and z3.is_eq(goal) and goal.arg(0).sort() == R:
            g2 = self.rewrite(hyps, goal)
            if g2 is not None:
                if is_true(g2): return 'proved', None
                if z3.is_eq(g2) and self.congr(hyps, g2.arg(0), g2.arg(1), clock() + 8 * SCALE[0]): return 'proved', None
        if not (ex or sx) and r == 'refuted':
            return r, m
        if r == 'unknown' and depth == 0 and self.ground(allh, goal, timeout): return 'proved', None
        if depth == 0 and r == 'unknown':
            r2, m2 = self.check2(allh + sx, goal, timeout)
            if r2 is not None: return r2, m2
        if self.deadline and clock() > self.deadline: return 'unknown', None
        # 3. case splits on a top-level if-then-else condition of the goal
        if depth < 3:
            c = find_ite(goal)
            if c is not None:
                r1 = self.prove(hyps + [c], simplify(z3.substitute(goal, (c, TRUE))), depth + 1, timeout)
                if r1[0] != 'proved': return r1 if r1[0] == 'refuted' else (r, m)
                return self.prove(hyps + [Not(c)], simplify(z3.substitute(goal, (c, FALSE))), depth + 1, timeout)
        return r, m

    # ---- quantifiers ---------------------------------------------------
    def skolem_hyps(self, hyps):
        out = []; sk = []
        for h in hyps:
            if not has_q(h): out.append(h); continue
            ds = h.children() if z3.is_or(h) else [h]
            if any(z3.is_quantifier(d) and d.is_exists() for d in ds):
                key = h.get_id()
                if not hasattr(self, 'skcache'): self.skcache = {}
                if key not in self.skcache or not self.skcache[key][0].eq(h):
                    nd = []; mine = []
                    for d in ds:
                        if z3.is_quantifier(d) and d.is_exists():
                            vs = [z3.Const('ex!%d' % next(self.sk), d.var_sort(i)) for i in range(d.num_vars())]
                            mine += vs; d = z3.substitute_vars(d.body(), *reversed(vs))
                        nd.append(d)
                    self.skcache[key] = (h, Or(*nd) if len(nd) > 1 else nd[0], mine)
                _, h2, mine = self.skcache[key]
                out.append(h2); sk += mine
            else: out.append(h)
        return out, sk

    def prove_exists(self, hyps, goal, depth, timeout):
        hyps, sk = self.skolem_hyps(hyps)
        if goal.num_vars() != 1: return False
        srt = goal.var_sort(0)
        cands = []
        if srt == R:
            # results of loops
            for x in walk_apps(hyps):
                if x.sort() == R and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().endswith('!rec') and not any(x.eq(y) for y in cands): cands.append(x)
        else:
            cands = [x for x in sk if x.sort() == srt]
            for x in walk_apps(hyps):
                if x.sort() == srt and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().endswith('!rec') and not any(x.eq(y) for y in cands): cands.append(x)
        for c in cands[:4]:
            if self.deadline and clock() > self.deadline: return False
            if self.prove(hyps, z3.substitute_vars(goal.body(), c), depth + 1, timeout)[0] == 'proved': return True
        return False

    def instantiate(self, hyps, goal):
        """instances of one-variable universal hypotheses at the integer constants introduced for the goal"""
        ts = [x for x in walk_apps([goal]) if z3.is_const(x) and x.sort() == I and x.decl().name().startswith(('sk!', 'ex!', 'fk!'))]
        hyps, sk = self.skolem_hyps(hyps)
        if not ts and not sk: return hyps
        # guarded universal hypotheses whose guard holds
        h2 = []
        for h in hyps:
            if z3.is_implies(h) and z3.is_quantifier(h.arg(1)) and h.arg(1).is_forall() and index_cond_c(h.arg(0)) and self.quick([x for x in hyps if not has_q(x)], h.arg(0)): h = h.arg(1)
            h2.append(h)
        hyps = h2
        out = list(hyps)
        for h in [c for h in hyps for c in (h.children() if z3.is_and(h) and has_q(h) else [h])]:
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I:
                for t in (ts + sk)[:6]: out.append(simplify(z3.substitute_vars(h.body(), t)))
        return out

    def rewrite(self, hyps, goal):
        """replace applications in the goal by the values given to them by equational hypotheses"""
        apps = {x.get_id(): x for x in walk_apps([goal]) if x.sort() == R and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name() not in RECFUNS and not is_sum(x)}
        names = set(x.decl().name() for x in apps.values())
        prs = []
        def visit(h, d):
            if d > 4 or has_q(h): return
            if z3.is_and(h):
                for c in h.children(): visit(c, d + 1)
            elif z3.is_or(h):
                ch = h.children()
                big = [c for c in ch if not index_cond_c(c)]
                if len(big) == 1 and all(self.quick(hyps, Not(c)) for c in ch if not c.eq(big[0])): visit(big[0], d + 1)
            elif z3.is_implies(h):
                if index_cond_c(h.arg(0)) and self.quick(hyps, h.arg(0)): visit(h.arg(1), d + 1)
            elif z3.is_eq(h) and h.arg(0).sort() == R:
                if any(z3.is_app_of(e, z3.Z3_OP_ITE) and consts_of(e) & names for e in h.children()):
                    h = self.decide(hyps, [h], clock() + 2 * SCALE[0], {})[0]
                    if not z3.is_eq(h): return
                for x, y in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name() in names and not (consts_of(y) & {x.decl().name()}) and not ('!rec' not in x.decl().name() and any('!rec' in q for q in consts_of(y) & names)):
                        for a in apps.values():
                            if a.decl().eq(x.decl()) and not any(a.eq(p[0]) for p in prs) and all(u.eq(v) or (u.sort() == I and self.quick(hyps, u == v)) for u, v in zip(a.children(), x.children())):
                                prs.append((a, y))
        for h in hyps:
            if not (consts_of(h) & names): continue
            q = h
            if z3.is_implies(h) and z3.is_quantifier(h.arg(1)) and index_cond_c(h.arg(0)):
                if not self.quick(hyps, h.arg(0)): continue
                q = h.arg(1)
            if z3.is_or(h) and len([c for c in h.children() if z3.is_quantifier(c)]) == 1:
                rest = [c for c in h.children() if not z3.is_quantifier(c)]
                if not all(index_cond_c(c) and self.quick(hyps, Not(c)) for c in rest): continue
                q = [c for c in h.children() if z3.is_quantifier(c)][0]
            if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == I:
                # instances matching applications f(.., k, ..) of the goal
                for f, pos in bound_apps(q):
                    for a in list(apps.values()):
                        if a.decl().eq(f): visit(simplify(z3.substitute_vars(q.body(), a.arg(pos))), 0)
            else: visit(q, 0)
        if not prs: return None
        return simplify(z3.substitute(goal, *prs))

    # ---- congruence ----------------------------------------------------
    def decide(self, hyps, es, deadline, tried):
        """replace if-then-else conditions that follow from the hypotheses (or whose negation does)"""
        while True:
            prs = []
            for x in walk_apps(es):
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    c = x.arg(0)
                    if c.get_id() in tried: continue
                    if is_true(c) or is_false(c): continue
                    tried[c.get_id()] = c
                    if clock() > deadline: break
                    if not index_cond(c): continue
                    if self.quick(hyps, c): prs.append((c, TRUE))
                    elif self.quick(hyps, Not(c)): prs.append((c, FALSE))
            if not prs: return es
            es = [simplify(z3.substitute(e, *prs)) for e in es]

    def unfold1(self, hyps, es):
        prs = []
        for x in walk_apps(es):
            if is_sum(x):
                n = x.arg(0)
                if z3.is_add(n) and n.num_args() >= 2 and z3.is_int_value(n.arg(0)) and n.arg(0).as_long() == 1 or ival(n) == 1:
                    t = simplify(n - 1)
                    if self.quick(hyps, t >= 0): prs.append((x, x.decl()(t, x.arg(1)) + lam_apply(x.arg(1), t)))
        return [simplify(z3.substitute(e, *prs)) for e in es] if prs else es

    def congr(self, hyps, a, b, deadline, depth=0):
        if a.eq(b): return True
        if clock() > deadline: return False
        if depth == 0: a, b = self.unfold1(hyps, [a, b])
        a, b = self.decide(hyps, [a, b], deadline, {})
        if a.eq(b): return True
        c = None
        if depth < 8:
            cs = []
            for x in walk_apps([a, b]):
                if z3.is_app_of(x, z3.Z3_OP_ITE) and index_cond(x.arg(0)) and not is_true(x.arg(0)) and not is_false(x.arg(0)):
                    cc = x.arg(0)
                    # equations for an index variable first, then the smallest conditions
                    rank = (0 if any(z3.is_eq(e) and any(z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED for y in e.children()) for e in ([cc] if not z3.is_and(cc) else cc.children())) else 1, len(walk_apps([cc])))
                    cs.append((rank, len(cs), cc))
            if cs: c = min(cs)[2]
        if c is not None:
            for v, cc in ((TRUE, c), (FALSE, Not(c))):
                a2, b2 = simplify(z3.substitute(a, (c, v))), simplify(z3.substitute(b, (c, v)))
                h2 = list(hyps) + [cc]
                if v is TRUE:
                    for e in ([c] if not z3.is_and(c) else c.children()):
                        if z3.is_eq(e) and e.arg(0).sort() == I:
                            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (consts_of(y) & {x.decl().name()}):
                                    a2, b2 = simplify(z3.substitute(a2, (x, y))), simplify(z3.substitute(b2, (x, y)))
                                    h2 = [simplify(z3.substitute(h, (x, y))) for h in h2] + [e]; break
                if not self.congr(h2, a2, b2, deadline, depth + 1): return False
            return True
        return self.eqt(hyps, a, b, deadline, [60])

    def eqt(self, hyps, a, b, deadline, budget):
        if a.eq(b): return True
        if a.sort() != b.sort() or clock() > deadline: return False
        budget[0] -= 1
        if budget[0] < 0: return False
        if a.sort() == I:
            return self.quick(hyps, a == b, 100)
        if a.sort().kind() == z3.Z3_ARRAY_SORT:
            j = z3.Int('sum!%d' % next(self.sk))
            return self.congr(hyps, lam_apply(a, j), lam_apply(b, j), deadline, 4)
        if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.decl().name() in RECFUNS:
            rf, _ = RECFUNS[a.decl().name()]
            ca, cb = a.children(), b.children(); t = ca[-1]
            if not (t.eq(cb[-1]) or self.quick(hyps, t == cb[-1])): return False
            for i, (x, y) in enumerate(zip(ca[:-1], cb[:-1])):
                if x.eq(y): continue
                if i in rf.reads:
                    r = rf.reads[i]; j = z3.Int('sum!%d' % next(self.sk)) if r in ('t', 'le') else None
                    for k in ([j] if j is not None else [IntVal(q) for q in range(r)]):
                        h2 = list(hyps) + ([k >= 0, k < t] if r == 't' else [k <= t] if r == 'le' else [])
                        fx, fy = lam_apply(x, k), lam_apply(y, k)
                        if not fx.eq(fy) and not self.congr(h2, fx, fy, deadline, 4): return False
                elif not self.eqt(hyps, x, y, deadline, budget): return False
            return True
        if is_sum(a) and is_sum(b):
            if not (a.arg(0).eq(b.arg(0)) or self.quick(hyps, a.arg(0) == b.arg(0))): return False
            j = z3.Int('sum!%d' % next(self.sk))
            fa, fb = lam_apply(a.arg(1), j), lam_apply(b.arg(1), j)
            return self.congr(list(hyps) + [j >= 0, j < a.arg(0)], fa, fb, deadline, 4)
        if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() > 0:
            ca, cb = a.children(), b.children()
            if z3.is_add(a) or z3.is_mul(a) or z3.is_and(a) or z3.is_or(a) or z3.is_eq(a):
                left = list(cb); rest = []
                for x in ca:
                    for k, y in enumerate(left):
                        if x.eq(y): del left[k]; break
                    else: rest.append(x)
                for x in rest:
                    for k, y in enumerate(left):
                        if shape(x) == shape(y) and self.eqt(hyps, x, y, deadline, budget): del left[k]; break
                    else: break
                else: return True
            else:
                ok = True
                for x, y in zip(ca, cb):
                    if not self.eqt(hyps, x, y, deadline, budget): ok = False; break
                if ok: return True
        if a.sort() == R:
            # a recursively defined value against something else: unfold it once
            for x, y in ((a, b), (b, a)):
                if z3.is_app(x) and (x.decl().name() in RECFUNS or x.decl().name() in self.recnames and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) and shape(x) != shape(y):
                    if x.decl().name() in RECFUNS: rf, j = RECFUNS[x.decl().name()]; axs = rf.inst(j, x)
                    else:
                        axs = self.recnames[x.decl().name()](x)
                        tt = axs[0].arg(0).arg(0)
                        if not (ival(tt) is not None or z3.is_add(tt) and z3.is_int_value(tt.arg(0)) and tt.arg(0).as_long() > 0): continue
                    for ax in axs:
                        ax = ax if z3.is_implies(ax) else None
                        if ax is not None and self.quick(hyps, ax.arg(0)) and z3.is_eq(ax.arg(1)):
                            return self.congr(hyps, simplify(ax.arg(1).arg(1)), y, deadline, 2)
            g = self.rewrite(hyps, a == b)
            if g is not None:
                if is_true(g): return True
                if z3.is_eq(g) and budget[0] > 0:
                    budget[0] -= 20
                    return self.congr(hyps, g.arg(0), g.arg(1), deadline, 5)
            if not heavy(a == b): return self.quick(hyps, a == b, 200)
        return False

    def ground(self, hyps, goal, timeout):
        """the quantifier-free hypotheses with the instances of the one-variable universal ones at the arguments their functions have there"""
        if has_q(goal): return False
        qf = [h for h in hyps if not has_q(h)]; qs = []
        for h in hyps:
            if not has_q(h): continue
            for d in (h.children() if z3.is_and(h) else [h]):
                g = TRUE
                if z3.is_implies(d): g, d = d.arg(0), d.arg(1)
                if z3.is_quantifier(d) and d.is_forall() and d.num_vars() == 1 and d.var_sort(0) == I and not has_q(g): qs.append((g, d))
        if not qs: return False
        gnames = consts_of(goal); rel = set(gnames)
        pool = [goal] + [h for h in qf if consts_of(h) & gnames]
        for rnd in range(2):
            apps = {}
            for x in walk_apps(pool):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: apps.setdefault(x.decl().name(), {}).setdefault(x.get_id(), x)
            new = []
            for g, q in qs:
                ts = {}
                for f, pos in bound_apps(q, None):
                    for x in list(apps.get(f.name(), {}).values())[:16]:
                        if x.decl().eq(f): t = simplify(x.arg(pos)); ts.setdefault(t.get_id(), t)
                for t in list(ts.values())[:16]: new.append(Implies(g, simplify(z3.substitute_vars(q.body(), t))))
            new = [x for x in new if not has_q(x)]
            if not new: return False
            if self.check(qf + new, goal, timeout)[0] == 'proved': return True
            pool = pool + new
        return False

    def check2(self, hyps, goal, timeout):
        """second opinion: quantifier-free part, Ackermannised, nlsat"""
        qf = [h for h in hyps if not has_q(h)]
        if has_q(goal): return None, None
        try:
            h2, g2 = abstract_apps(qf, goal)
            s = z3.SolverFor('QF_NRA') if False else z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', int(SCALE[0] * timeout))
            # only purely real/int-free formulas go to nlsat
            hs = [h for h in h2 if purely_real(h)]
            if not purely_real(g2): return None, None
            for h in hs: s.add(h)
            s.add(Not(g2))
            t = time.time(); r = s.check(); STATS.n += 1; STATS.t += time.time() - t
            if r == z3.unsat: return 'proved', None
        except z3.Z3Exception:
            pass
        return None, None

_ba = {}
def bound_apps(q, srt=R):
    """(declaration, argument position) of the applications to the bound variable itself in the body of q"""
    r = _ba.get((q.get_id(), srt))
    if r is not None and r[0].eq(q): return r[1]
    out = []; st = [q.body()]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and (srt is None or x.sort() == srt):
                for i, c in enumerate(x.children()):
                    if z3.is_var(c) and not any(o[0].eq(x.decl()) for o in out): out.append((x.decl(), i))
            st += x.children()
    _ba[(q.get_id(), srt)] = (q, out)
    return out

def shape(x):
    if not z3.is_app(x): return None
    return (x.decl().name(), x.num_args())

def heavy(e):
    n = 0
    for x in walk_apps([e]):
        n += 1
        if is_sum(x) or x.decl().name() in RECFUNS: return True
    return n > 60

_ic = {}
def index_cond_c(c):
    r = _ic.get(c.get_id())
    if r is None or not r[0].eq(c):
        r = (c, index_cond(c)); _ic[c.get_id()] = r
    return r[1]

def index_cond(c):
    """condition over integers only (no real terms, no quantifiers)"""
    for x in walk_apps([c]):
        if x.sort() == R: return False
    return not has_q(c)

def purely_real(e):
    for x in walk_apps([e]):
        if x.sort() == I: return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: return False
    return not has_q(e)

_hq = {}
def has_q(e):
    i = e.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(e): return r[1]
    res = False
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda(): res = True; break
            continue
        st.extend(x.children())
    _hq[i] = (e, res)
    return res

def abstract_sums(hyps, goal):
    ss = [x for x in walk_apps(list(hyps) + [goal]) if is_sum(x) or is_ord(x)]
    if not ss: return hyps, goal
    # outermost first: replace larger terms by constants
    pairs = []
    for i, x in enumerate(ss):
        pairs.append((x, z3.Const('sumc!%d' % x.get_id(), x.sort())))
    return [z3.substitute(h, *pairs) for h in hyps], z3.substitute(goal, *pairs)

def abstract_apps(hyps, goal):
    ss = [x for x in walk_apps(list(hyps) + [goal]) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0]
    pairs = [(x, z3.Const('app!%d' % x.get_id(), x.sort())) for x in ss]
    if not pairs: return hyps, goal
    return [z3.substitute(h, *pairs) for h in hyps], z3.substitute(goal, *pairs)

def find_ite(e):
    for x in walk_apps([e]):
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not is_true(x.arg(0)) and not is_false(x.arg(0)):
            return x.arg(0)
    return None
