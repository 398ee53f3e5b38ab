"""Parser for the subset of textual LLVM IR (LLVM 18) that clang -O0 emits for
/repo's sources.  Nothing is interpreted here; unknown instructions are kept as
opaque ('unsupported') and only fail when they are executed symbolically."""
import re, subprocess, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>!(?:[a-zA-Z0-9_.]+)?|\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            out.append(('other', s[i])); i += 1
            continue
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','signext','zeroext','returned',
  'immarg','readnone','inreg','nofree','nest','swiftself','noext','allocptr','allocalign','dead_on_unwind','writable'}

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        r = self.peek(); self.i += 1; return r
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %s got %s' % (v, self.peek()))
    def done(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'loc':
            ty = ('named', v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            ty = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            ty = ('struct', tuple(fs))
        elif v == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                ty = ('struct', tuple(fs), 'packed')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                ty = ('vecty', n, e)
        elif k == 'word' and v == 'opaque':
            ty = ('opaque',)
        elif k == 'word':
            ty = ('prim', v)
        else:
            raise IRError('type? %r' % ((k, v),))
        while self.peek()[1] == '*' :
            self.next(); ty = ('prim', 'ptr')
        if self.peek()[1] == '(' and ty[0] in ('prim', 'struct', 'named'):
            # function type: ty (args)  -- skip
            save = self.i
            d = 0
            while True:
                _, w = self.next()
                if w == '(': d += 1
                elif w == ')':
                    d -= 1
                    if d == 0: break
            ty = ('fn', ty)
        return ty

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align',):
                self.next(); self.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype', 'initializes','range','nofpclass', 'captures'):
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        _, w = self.next()
                        if w == '(': d += 1
                        elif w == ')':
                            d -= 1
                            if d == 0: break
            else:
                return

    def value(self, ty):
        """operand value of given type"""
        k, v = self.next()
        if k == 'loc': return ('loc', v[1:].strip('"'))
        if k == 'glob': return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty == ('prim', 'double') or ty == ('prim', 'float'):
                if v.startswith('0x'):
                    return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
                return ('fp', float(v))
            return ('int', int(v, 0))
        if v in ('true', 'false'): return ('bool', v == 'true')
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'getelementptr':
            self.accept('inbounds')
            while self.peek()[1] in ('nuw','nusw','inrange'): self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
            self.expect('(')
            t0 = self.type(); b = self.value(t0); self.expect('to'); t1 = self.type(); self.expect(')')
            return ('ccast', v, t0, b, t1)
        if v in ('sub', 'add', 'mul'):
            while self.peek()[1] in ('nsw','nuw'): self.next()
            self.expect('(')
            t0 = self.type(); a = self.value(t0); self.expect(','); t1=self.type(); b = self.value(t1); self.expect(')')
            return ('cbin', v, t0, a, b)
        if v == '{' or v == '[' or v == '<':
            close = {'{':'}','[':']','<':'>'}[v]
            if v == '<' and self.accept('{'): close = '}>'
            els = []
            if self.peek()[1] != close[0]:
                while True:
                    t0 = self.type(); els.append((t0, self.value(t0)))
                    if not self.accept(','): break
            for c in close: self.expect(c)
            return ('agg', els)
        if k == 'str':
            return ('str', v)
        if v == 'blockaddress' or v == 'asm':
            raise IRError('unsupported const ' + str(v))
        raise IRError('value? %r' % ((k, v),))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'line')
    def __init__(self, op, res, ty, a, text):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.text = text; self.line = None
    def __repr__(self): return self.text

class Block:
    def __init__(self, name):
        self.name = name; self.phis = []; self.ins = []; self.succ = []

class Function:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []
        self.text = None; self.parsed = False; self.line = None; self.file = None

BINOPS = {'add','sub','mul','sdiv','udiv','srem','urem','fadd','fsub','fmul','fdiv','frem','and','or','xor','shl','lshr','ashr'}
CASTS = {'sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','ptrtoint','inttoptr','bitcast','addrspacecast'}
FLAGS = {'nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','volatile','atomic','samesign'}

def parse_call(p, op, res, text):
    # p positioned after 'call' / 'invoke'
    while True:
        k, v = p.peek()
        if v in FLAGS or v in ('fastcc','ccc'): p.next(); continue
        break
    p.skip_attrs()
    rty = p.type()
    if rty[0] == 'fn': rty = rty[1]
    k, v = p.next()
    if k not in ('loc', 'glob'):
        raise IRError('callee ' + str(v))
    callee = (k, v[1:].strip('"'))
    p.expect('(')
    args = []
    meta = False
    if not p.accept(')'):
        while True:
            if p.peek()[1] == 'metadata':
                meta = True
                break
            t = p.type(); 
            # attributes
            p_attrs_start = p.i
            p.skip_attrs()
            args.append((t, p.value(t)))
            if p.accept(')'): break
            p.expect(',')
    if meta:
        return None
    d = dict(callee=callee, args=args, ret=rty)
    if op == 'invoke':
        # ... to label %x unwind label %y
        while p.peek()[1] != 'to': p.next()
        p.next(); p.expect('label'); d['normal'] = p.next()[1][1:].strip('"')
        p.expect('unwind'); p.expect('label'); d['unwind'] = p.next()[1][1:].strip('"')
    return Instr(op, res, rty, d, text)

def parse_instr(text):
    m = re.match(r'\s*(?:(%"[^"]*"|%[-a-zA-Z$._0-9]+)\s*=\s*)?(.*)$', text, re.S)
    res = m.group(1)[1:].strip('"') if m.group(1) else None
    body = m.group(2)
    dbg = re.search(r', !dbg !(\d+)', body)
    body2 = re.sub(r', ![a-z][a-zA-Z0-9_.]* ?!\d+', '', body)
    body2 = re.sub(r', ![a-z][a-zA-Z0-9_.]* !DIExpr.*$', '', body2)
    p = P(tokenize(body2))
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    try:
        ins = _parse(op, p, res, text)
    except IRError as e:
        ins = Instr('unsupported', res, None, str(e), text)
    if ins is not None:
        ins.line = int(dbg.group(1)) if dbg else None
    return ins

def _parse(op, p, res, text):
    if op in ('call', 'invoke'):
        return parse_call(p, op, res, text)
    if op in BINOPS:
        fl = set()
        while p.peek()[1] in FLAGS: fl.add(p.next()[1])
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr('bin', res, ty, (op, fl, a, b), text)
    if op == 'fneg':
        while p.peek()[1] in FLAGS: p.next()
        ty = p.type(); a = p.value(ty)
        return Instr('fneg', res, ty, (a,), text)
    if op in CASTS:
        while p.peek()[1] in FLAGS: p.next()
        t0 = p.type(); a = p.value(t0); p.expect('to'); t1 = p.type()
        return Instr('cast', res, t1, (op, t0, a), text)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS: p.next()
        pred = p.next()[1]; ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return Instr(op, res, ('prim', 'i1'), (pred, ty, a, b), text)
    if op == 'load':
        p.accept('volatile'); p.accept('atomic')
        ty = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return Instr('load', res, ty, (a,), text)
    if op == 'store':
        p.accept('volatile'); p.accept('atomic')
        ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); a = p.value(pt)
        return Instr('store', None, ty, (v, a), text)
    if op == 'alloca':
        ty = p.type(); n = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Instr('alloca', res, ty, (n,), text)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds','nuw','nusw'): p.next()
        bt = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Instr('gep', res, ('prim', 'ptr'), (bt, base, idx), text)
    if op == 'phi':
        while p.peek()[1] in FLAGS: p.next()
        ty = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); b = p.next()[1][1:].strip('"'); p.expect(']')
            inc.append((v, b))
            if not p.accept(','): break
        return Instr('phi', res, ty, inc, text)
    if op == 'select':
        while p.peek()[1] in FLAGS: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        return Instr('select', res, t1, (c, a, b), text)
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, (None, p.next()[1][1:].strip('"'), None), text)
        p.type(); c = p.value(('prim', 'i1')); p.expect(','); p.expect('label'); a = p.next()[1][1:].strip('"')
        p.expect(','); p.expect('label'); b = p.next()[1][1:].strip('"')
        return Instr('br', None, None, (c, a, b), text)
    if op == 'switch':
        ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1][1:].strip('"')
        p.expect('['); cases = []
        while not p.accept(']'):
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); cases.append((v[1], p.next()[1][1:].strip('"')))
        return Instr('switch', None, ty, (c, d, cases), text)
    if op == 'ret':
        if p.peek()[1] == 'void': return Instr('ret', None, None, (None,), text)
        ty = p.type(); return Instr('ret', None, ty, (p.value(ty),), text)
    if op == 'unreachable': return Instr('unreachable', None, None, (), text)
    if op == 'resume': return Instr('resume', None, None, (), text)
    if op == 'landingpad': return Instr('landingpad', res, None, (), text)
    if op == 'extractvalue':
        ty = p.type(); v = p.value(ty); ix = []
        while p.accept(','): ix.append(int(p.next()[1]))
        return Instr('extractvalue', res, ty, (v, ix), text)
    if op == 'insertvalue':
        ty = p.type(); v = p.value(ty); p.expect(','); t2 = p.type(); e = p.value(t2); ix = []
        while p.accept(','): ix.append(int(p.next()[1]))
        return Instr('insertvalue', res, ty, (v, t2, e, ix), text)
    if op == 'freeze':
        ty = p.type(); return Instr('freeze', res, ty, (p.value(ty),), text)
    raise IRError('unsupported instruction ' + str(op))

# classes of identical layout that the IR linker merges into one type
ALIASES = {'class.SincWindow': ['class.KaiserWindow'], 'class.KaiserWindow': ['class.SincWindow']}
class Module:
    def __init__(self, text, src=None):
        self.src = src
        self.types = {}; self.aliases = {}
        self.globals = {}
        self.funcs = {}
        self.meta = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1).strip('"')
                f = Function(name); f.text = lines[i:j+1]
                self.funcs[name] = f
                i = j + 1; continue
            if l.startswith('; QMVALIAS '):
                a, b = l[11:].split(' => '); self.aliases[a] = b
            elif l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                self.types[nm[1:].strip('"')] = body
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: self.meta[int(m.group(1))] = m.group(2)
            i += 1

    def type(self, name):
        b = self.types.get(name)
        if b is None: return ('opaque',)
        if isinstance(b, str):
            b = P(tokenize(b)).type()
            self.types[name] = b
        return b

    def layout(self, nm):
        if nm not in self.types:
            if nm in self.aliases: return self.aliases[nm]
            for a in ALIASES.get(nm, []):
                if a in self.types: return a
        return nm

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = ('named', self.layout(ty[1]))
            ty = self.type(ty[1])
        return ty

    def func(self, name):
        f = self.funcs.get(name)
        if f is None: return None
        if not f.parsed: self.parse_func(f)
        return f

    def parse_func(self, f):
        head = f.text[0]
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        p = P(tokenize(head[m.end():]))
        params = []
        if not p.accept(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.next(); p.expect(')'); break
                t = p.type(); 
                sret = False
                k0 = p.i
                p.skip_attrs()
                for kk in range(k0, p.i):
                    if p.t[kk][1] in ('sret', 'byval'): sret = p.t[kk][1]
                nm = p.next()[1][1:].strip('"')
                params.append((t, nm, sret))
                if p.accept(')'): break
                p.expect(',')
        f.params = params; f.vars = {}
        # return type
        h = head[len('define '):m.start()]
        hp = P(tokenize(h))
        while hp.peek()[0] == 'word' and hp.peek()[1] in ('dso_local','linkonce_odr','internal','hidden','weak_odr','available_externally','private','protected','local_unnamed_addr','fastcc','weak'):
            hp.next()
        hp.skip_attrs()
        f.ret = hp.type()
        mm = re.search(r'!dbg !(\d+)', head)
        if mm:
            d = self.meta.get(int(mm.group(1)), '')
            ml = re.search(r'line: (\d+)', d); f.line = int(ml.group(1)) if ml else None
        # body
        cur = None
        body = f.text[1:-1]
        i = 0
        first = True
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip(): continue
            ml = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if ml:
                nm = ml.group(1).strip('"')
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); first = False
                continue
            if first:
                # unnamed entry block: number = count of unnamed params -- name it 'entry0'
                cur = Block('%entry'); f.blocks['%entry'] = cur; f.order.append('%entry'); first = False
            # join continuation lines
            s = l.strip()
            if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
                while True:
                    s += ' ' + body[i].strip(); i += 1
                    if body[i-1].strip().startswith(']'): break
            while i < len(body) and re.match(r'^\s{8,}(to label|cleanup|catch|filter)', body[i]):
                s += ' ' + body[i].strip(); i += 1
            if 'llvm.dbg.value' in s or 'llvm.dbg.declare' in s:
                mv = re.search(r'@llvm\.dbg\.\w+\(metadata \S+ %("[^"]*"|[-a-zA-Z$._0-9]+), metadata !(\d+)', s)
                if mv:
                    d = self.meta.get(int(mv.group(2)), ''); mn = re.search(r'name: "([^"]*)"', d)
                    if mn:
                        l = f.vars.setdefault(mn.group(1), [])
                        if mv.group(1).strip('"') not in l: l.append(mv.group(1).strip('"'))
            if 'llvm.dbg.' in s or '@llvm.lifetime' in s or '@llvm.experimental.noalias' in s: continue
            ins = parse_instr(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [x for x in t.a[1:] if x]
            elif t.op == 'switch': b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke': b.succ = [t.a['normal']]   # unwind edges: exceptional exit
            else: b.succ = []
        f.parsed = True
        f.text = None
        analyse(f)

    # ---- debug info: class members -------------------------------------
    def members(self, cls):
        """ordered member names of class cls (as in the debug info)"""
        for k, d in self.meta.items():
            if 'DICompositeType' in d and (('name: "%s"' % cls.split('::')[-1]) in d or ('name: "%s<' % cls.split('::')[-1]) in d) and 'elements:' in d:
                if 'identifier:' in d and '::' in cls:
                    # crude check on the mangled identifier
                    idm = re.search(r'identifier: "([^"]*)"', d).group(1)
                    want = ''.join('%d%s' % (len(x), x) for x in cls.split('::'))
                    if want not in idm: continue
                em = re.search(r'elements: !(\d+)', d)
                els = re.findall(r'!(\d+)', self.meta[int(em.group(1))])
                out = []
                for e in els:
                    x = self.meta[int(e)]
                    if 'tag: DW_TAG_inheritance' in x:
                        out.append('<base>')
                    elif 'DW_TAG_member' in x and 'DIFlagStaticMember' not in x:
                        out.append(re.search(r'name: "([^"]*)"', x).group(1))
                return out
        for k, d in self.meta.items():
            # typedef of an unnamed struct
            if 'DW_TAG_typedef' in d and 'name: "%s"' % cls in d:
                b = self.meta[int(re.search(r'baseType: !(\d+)', d).group(1))]
                em = re.search(r'elements: !(\d+)', b)
                if 'DICompositeType' in b and em:
                    return [re.search(r'name: "([^"]*)"', self.meta[int(e)]).group(1) for e in re.findall(r'!(\d+)', self.meta[int(em.group(1))])]
        return None

class Loop:
    def __init__(self, header):
        self.header = header; self.blocks = set(); self.latches = []; self.parent = None; self.children = []

def analyse(f):
    """RPO, dominators, natural loops"""
    entry = f.order[0]
    seen = set(); po = []
    def dfs(b):
        st = [(b, iter(f.blocks[b].succ))]
        seen.add(b)
        while st:
            x, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.blocks[s].succ))); adv = True
                    break
            if not adv:
                po.append(x); st.pop()
    dfs(entry)
    rpo = po[::-1]
    f.rpo = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ: preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in dom[b]:
                L = loops.setdefault(s, Loop(s)); L.latches.append(b)
                body = {s}; st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
                L.blocks |= body
    for L in loops.values():
        best = None
        for M in loops.values():
            if M is not L and L.header in M.blocks and L.blocks <= M.blocks:
                if best is None or len(M.blocks) < len(best.blocks): best = M
        L.parent = best
        if best: best.children.append(L)
    f.loops = loops
    f.preds = preds
    # RPO must be valid: loop bodies contiguous not needed

_dem = {}
def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True)
        for a, b in zip(need, r.stdout.split('\n')): _dem[a] = b
    return {n: _dem[n] for n in names}
