"""Flow- and path-sensitive abstract interpretation over the IR of ir.py.

State: SSA environment, abstract memory (typed by struct field), facts about
terms (finite value sets / exclusion sets), an optional 'depth' attribute for
cursor-like pointers, and a client's typestate.  States of one block are kept
apart while they are few and joined otherwise; loop headers forget relations
between loop iterations.  No solver, no execution: facts are joined and
propagated until nothing changes."""
import re
from ir import Broken

DEPTH_CAP = 12
OPQ = ('ld', 'call', 'phi', 'mphi', 'av', 'cq', 'out')


def width(ty):
    m = re.match(r'i(\d+)$', ty)
    return int(m.group(1)) if m else 64


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def ux(v, w):
    return v & ((1 << w) - 1)


def C(n):
    return ('c', n)


NULL = ('null',)
UNDEF = ('undef',)


def evalop(t, leaf, v):
    """value (signed at its width) of structural term t when leaf = v; None if
    it depends on anything else"""
    if t == leaf:
        return v
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'null':
        return 0
    if k != 'op':
        return None
    op, w = t[1], t[2]
    a = evalop(t[3], leaf, v)
    if a is None:
        return None
    if op == 'zext':
        return ux(a, t[4])
    if op == 'sext':
        return sx(a, t[4])
    if op == 'trunc':
        return sx(a, w)
    b = evalop(t[4], leaf, v)
    if b is None:
        return None
    if op.startswith('icmp '):
        p = op[5:]
        if p[0] == 'u':
            a, b = ux(a, w), ux(b, w); p = p[1:]
        elif p[0] == 's':
            p = p[1:]
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        return -1 if r else 0
    if op == 'add': r = a + b
    elif op == 'sub': r = a - b
    elif op == 'mul': r = a * b
    elif op == 'and': r = a & b
    elif op == 'or': r = a | b
    elif op == 'xor': r = a ^ b
    elif op == 'shl': r = a << (b & 63)
    elif op == 'lshr': r = ux(a, w) >> (b & 63)
    elif op == 'ashr': r = a >> (b & 63)
    elif op == 'select':
        c = evalop(t[5], leaf, v)
        if c is None: return None
        r = b if a else c
    elif op in ('sdiv', 'srem', 'udiv', 'urem') and b:
        if op[0] == 'u': a, b = ux(a, w), ux(b, w)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        r = q if op[1:] == 'div' else a - q * b
    else:
        return None
    return sx(r, w)


def leaves(t, out=None):
    if out is None:
        out = set()
    if t[0] == 'op':
        for x in t[3:]:
            if isinstance(x, tuple):
                leaves(x, out)
    elif t[0] not in ('c', 'null', 'undef', 'g', 'fn'):
        out.add(t)
    return out


def subterms(t, out):
    if t in out:
        return
    out.add(t)
    for x in t[1:]:
        if isinstance(x, tuple):
            subterms(x, out)


FPOPS = ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp')


class State:
    __slots__ = ('env', 'mem', 'facts', 'd', 'user', 'trace', 'widths')

    def copy(s):
        n = State()
        n.env = dict(s.env); n.mem = dict(s.mem); n.facts = dict(s.facts)
        n.d = dict(s.d); n.user = s.user; n.trace = s.trace
        return n

    def key(s):
        return (frozenset(s.env.items()), frozenset(s.mem.items()),
                frozenset(s.facts.items()), frozenset(s.d.items()), s.user)


class Client:
    K = 8          # distinct states kept per block
    KH = 3         # ... per loop header
    VS = 12        # largest value set kept across a join
    use_depth = False
    keepall = False  # facts and memory are never dropped
    norm = None
    use_sig = False    # group states by sig() when too many
    noalias_args = False   # pointer parameters never alias each other
    immutable = frozenset()   # (Struct, field) classes treated as never changing

    loop_keep = None
    def extra_roots(self, st): return ()
    join_term = None
    merge_cells = False  # fields of pointers that differ are joined, too
    move_term = None
    fp = False           # floating-point operations are terms, too
    def entry(self, st, fn): pass
    def call(self, st, ins, args): return None
    def load(self, st, ins, addr, val): return None
    def store(self, st, ins, addr, val): pass
    def assume(self, st, cond, truth): return True
    def ret(self, st, ins, val): pass
    def phi(self, st, ins, val): pass
    def instr(self, st, ins, val): pass
    def edge(self, st, fn, src, dst): return True
    def join_user(self, a, b): return a if a == b else None
    def leaf_depth(self, st, t): return None
    unroll = False       # loops are walked round by round


def cls(a):
    """alias class of an address term"""
    k = a[0]
    if k == 'f':
        return ('F', a[2], a[3])
    if k == 'al':
        return ('A', a[1])
    if k == 'g':
        return ('G', a[1])
    if k == 'x':
        b = a[1]
        while b[0] == 'x':
            b = b[1]
        if b[0] in ('al', 'g', 'f'):
            return cls(b)
        return ('D',)
    return ('D',)


def root(a):
    while a[0] in ('f', 'x'):
        a = a[1]
    return a


class Mods:
    """per function: which alias classes it (transitively) may write"""

    def __init__(s, mod):
        s.mod = mod
        s._ac = {}
        direct = {}
        sizes = {}
        for n, st in mod.structs.items():
            short = re.sub(r'\.\d+$', '', re.sub(r'^(struct|union)\.', '', n))
            sizes.setdefault(st['size'], set()).add(short)
        s.sizes = sizes
        for n, f in mod.defs.items():
            w = set()
            for i in f.instrs():
                if i.op == 'store':
                    w |= s.addrcls(f, i.ops[1])
                elif i.op == 'call' and i.callee and re.match(r'llvm\.mem(cpy|set|move)', i.callee):
                    w |= s.memcls(f, i)
            direct[n] = w
        # fields that are only ever written into a freshly allocated object
        ALLOC = ('malloc', 'calloc', 'realloc', 'arena_malloc', 'arena_calloc')
        bad, ok = set(), set()
        for n, f in mod.defs.items():
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[1], str):
                    g = f.by_id.get(i.ops[1])
                    if g is not None and g.op == 'getelementptr' and g.x['sty'].startswith('%struct') and len(g.ops) >= 3:
                        c = mod.field(g.x['sty'], g.ops[2][1])
                        b = f.by_id.get(g.ops[0]) if isinstance(g.ops[0], str) else None
                        if b is not None and b.op == 'call' and b.callee in ALLOC and len(g.ops) == 3: ok.add(c)
                        else: bad.add(c)
        s.initonly = frozenset(ok - bad)
        s.all = {}
        for n in mod.defs:
            w = set()
            for m in mod.reachable([n]):
                w |= direct.get(m, set())
            s.all[n] = frozenset(w)

    def addrcls(s, f, op, seen=None):
        if isinstance(op, list):
            return {('G', op[1])} if op[0] == 'g' else set()
        key = (f.name, op)
        c = s._ac.get(key)
        if c is not None: return c
        if seen is None: seen = set()
        if op in seen: return set()
        top = not seen
        seen.add(op)
        r = s._addrcls(f, op, seen)
        if top: s._ac[key] = r
        return r

    def _addrcls(s, f, op, seen):
        i = f.by_id.get(op)
        if i is None:
            return {('D',)}
        if i.op == 'getelementptr':
            sty = i.x['sty']
            if sty.startswith('%struct') or sty.startswith('%union'):
                if len(i.ops) >= 3:
                    # innermost field path
                    idx = i.ops[2]
                    return {('F',) + s.mod.field(sty, idx[1])}
            return s.addrcls(f, i.ops[0], seen)
        if i.op == 'alloca':
            return set()
        if i.op in ('phi', 'select'):
            r = set()
            ops = [p[0] for p in i.ops] if i.op == 'phi' else i.ops[1:]
            for o in ops:
                r |= s.addrcls(f, o, seen)
            return r
        return {('D',)}

    def memcls(s, f, i):
        c = s.addrcls(f, i.ops[0])
        n = i.ops[2]
        if isinstance(n, list) and n[0] == 'i':
            for st in s.sizes.get(n[1], ()):
                c = c | {('S', st)}
        return c


class Engine:
    def __init__(s, mod, client, mods=None, maxstates=20000):
        s.mod = mod
        s.c = client
        s.mods = mods or Mods(mod)
        s.maxstates = maxstates
        s._wcache = {}

    # ---- terms -----------------------------------------------------------
    def opnd(s, st, o):
        if isinstance(o, str):
            if o[0] == 'a':
                return ('a', int(o[1:]))
            r = st.env.get(o)
            return r if r is not None else ('unk', o)
        k = o[0]
        if k == 'i': return ('c', o[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'g': return ('g', o[1], o[2])
        if k == 'fn': return ('fn', o[1])
        if k == 'f': return ('fc', o[1])
        return ('unkc',)

    def simp(s, op, w, *ops):
        a = ops[0]
        if op == 'zext':
            if a[0] == 'c': return C(ux(a[1], ops[1]))
        elif op == 'sext':
            if a[0] == 'c': return C(sx(a[1], ops[1]))
        elif op == 'trunc':
            if a[0] == 'c': return C(sx(a[1], w))
            if a[0] == 'op' and a[1] in ('zext', 'sext') and a[4] == w:
                return a[3]
        elif op.startswith('icmp'):
            b = ops[1]
            if a[0] == 'c' and b[0] == 'c':
                return C(evalop(('op', op, w, a, b), None, None))
            p = op[5:]
            if a == b and a[0] not in ('undef', 'unkc'):
                return C(-1 if p in ('eq', 'ule', 'uge', 'sle', 'sge') else 0)
            if p in ('eq', 'ne'):
                isn = None
                for x, y in ((a, b), (b, a)):
                    if y == NULL and x[0] in ('al', 'g', 'fn', 'f'):
                        isn = False if x[0] != 'f' else None
                if isn is False:
                    return C(0 if p == 'eq' else -1)
                # (zext i1 x) ==/!= 0
                if b == C(0) and a[0] == 'op' and a[1] in ('zext', 'sext') and a[4] == 1:
                    return a[3] if p == 'ne' else s.simp('xor', 1, a[3], C(-1))
                if a[0] == 'c' or a == NULL:
                    return ('op', op, w, b, a)
            return ('op', op, w, a, b)
        elif op == 'xor' and w == 1:
            b = ops[1]
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and a[0] == 'c': return C(sx(a[1] ^ b[1], 1))
            if b == C(0): return a
            if b == C(-1) and a[0] == 'op' and a[1] == 'xor' and a[4] == C(-1):
                return a[3]
            if b == C(-1) and a[0] == 'op' and a[1].startswith('icmp '):
                inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
                return ('op', 'icmp ' + inv[a[1][5:]], a[2], a[3], a[4])
            return ('op', op, w, a, b)
        elif op == 'select':
            if a[0] == 'c': return ops[1] if a[1] else ops[2]
            if ops[1] == ops[2]: return ops[1]
        elif len(ops) == 2 and ops[0][0] == 'c' and ops[1][0] == 'c':
            r = evalop(('op', op, w, ops[0], ops[1]), None, None)
            if r is not None: return C(r)
        elif op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c':
            return ('op', op, w, ops[1], a)
        if op in ('add', 'sub') and len(ops) == 2 and ops[1][0] == 'c':
            k = ops[1][1] if op == 'add' else -ops[1][1]
            if k == 0: return a
            if a[0] == 'op' and a[1] == 'add' and a[4][0] == 'c':
                return s.simp('add', w, a[3], C(sx(a[4][1] + k, w)))
            return ('op', 'add', w, a, C(sx(k, w)))
        return ('op', op, w) + ops

    def gep(s, st, ins):
        base = s.opnd(st, ins.ops[0])
        sty = ins.x['sty']
        idx = ins.ops[1:]
        i0 = s.opnd(st, idx[0])
        isst = sty.startswith('%')
        cur = base
        if not (i0 == C(0) and (len(idx) > 1 or isst)):
            esz = 1 if sty == 'i8' else sty
            cur = s.off(cur, i0, esz)
        t = sty
        for o in idx[1:]:
            if t.startswith('%'):
                cur = ('f', cur) + s.mod.field(t, o[1])
                t = s.mod.structs[t.lstrip('%').strip('"')]['tys'][o[1]]
            else:
                m = re.match(r'\[(\d+) x (.*)\]$', t)
                if not m:
                    return ('unk', ins.id)
                t = m.group(2)
                v = s.opnd(st, o)
                if v == C(0):
                    continue    # &arr[0] is arr
                cur = s.off(cur, v, 1 if t == 'i8' else t)
        return cur

    def off(s, base, o, esz):
        if o == C(0):
            return base
        if esz == 1 and base[0] == 'g' and o[0] == 'c':
            return ('g', base[1], base[2] + o[1])
        if base[0] == 'x' and base[3] == esz:
            b = base[2]
            if b[0] == 'c' and o[0] == 'c':
                return s.off(base[1], C(b[1] + o[1]), esz)
            if o[0] == 'c':       # (base + sym) + c : keep c outermost
                return ('x', base, o, esz)
        return ('x', base, o, esz)

    # ---- facts -----------------------------------------------------------
    def vset(s, st, t):
        """finite set of possible values or None"""
        if t[0] == 'c': return frozenset((t[1],))
        f = st.facts.get(t)
        if f and f[0] == 'in': return f[1]
        if t[0] == 'op':
            ls = leaves(t)
            if len(ls) == 1:
                l = next(iter(ls))
                f = st.facts.get(l)
                dom = f[1] if f and f[0] == 'in' else s.leafdom(l)
                if dom is not None and len(dom) <= 256:
                    if f and f[0] == 'nin':
                        dom = [v for v in dom if v not in f[1]]
                    r = set()
                    for v in dom:
                        e = evalop(t, l, v)
                        if e is None: return None
                        r.add(e)
                    return frozenset(r)
            if t[1].startswith('icmp ') and t[1][5:] in ('eq', 'ne') and t[4][0] in ('c', 'null'):
                f = st.facts.get(t[3])
                if f:
                    v = t[4][1] if t[4][0] == 'c' else 0
                    if f[0] == 'nin' and v in f[1]:
                        return frozenset((-1 if t[1][5:] == 'ne' else 0,))
                    if f[0] == 'in':
                        if v not in f[1]:
                            return frozenset((-1 if t[1][5:] == 'ne' else 0,))
                        if len(f[1]) == 1:
                            return frozenset((-1 if t[1][5:] == 'eq' else 0,))
        if t == NULL: return frozenset((0,))
        return None

    def leafdom(s, l):
        w = l[-1] if l[0] in ('ld', 'call', 'phi', 'av', 'mphi', 'cq', 'out') and isinstance(l[-1], int) else None
        if w == 1: return (0, -1)
        if w == 8: return range(-128, 128)
        return None

    def assume(s, st, t, truth):
        """refine st (in place) by cond term t == truth; False if infeasible"""
        if t[0] == 'c':
            return bool(t[1]) == truth
        if t[0] == 'op' and t[1] == 'xor' and t[2] == 1 and t[4] == C(-1):
            return s.assume(st, t[3], not truth)
        if t[0] == 'op' and t[1] == 'trunc' and t[2] == 1:
            l = t[3]
            if l[0] in OPQ and l[-1] == 8 and l not in st.facts:    # a bool held in memory
                s.setfact(st, l, ('in', frozenset((1,) if truth else (0,))))
                return s.c.assume(st, t, truth)
            return s.assume_val(st, t[3], lambda v: bool(v & 1) == truth) and s.c.assume(st, t, truth)
        if t[0] == 'op' and t[1] == 'and' and t[2] == 1 and truth:
            return s.assume(st, t[3], True) and s.assume(st, t[4], True)
        if t[0] == 'op' and t[1] == 'or' and t[2] == 1 and not truth:
            return s.assume(st, t[3], False) and s.assume(st, t[4], False)
        if t[0] == 'op' and t[1] == 'select' and t[2] == 1:
            if t[5] == C(0) and truth:
                return s.assume(st, t[3], True) and s.assume(st, t[4], True)
            if t[4] == C(-1) and not truth:
                return s.assume(st, t[3], False) and s.assume(st, t[5], False)
        vs = s.vset(st, t)
        if vs is not None:
            if not any(bool(v) == truth for v in vs):
                return False
        ls = leaves(t)
        ok = True
        if len(ls) == 1:
            l = next(iter(ls))
            f = st.facts.get(l)
            dom = f[1] if f and f[0] == 'in' else s.leafdom(l)
            if dom is not None and len(dom) <= 256:
                if f and f[0] == 'nin':
                    dom = [v for v in dom if v not in f[1]]
                keep = []
                for v in dom:
                    e = evalop(t, l, v)
                    if e is None:
                        keep = None; break
                    if bool(e) == truth: keep.append(v)
                if keep is not None:
                    if not keep: return False
                    s.setfact(st, l, ('in', frozenset(keep)))
                    return s.c.assume(st, t, truth)
        if t[0] == 'op' and t[1] in ('icmp eq', 'icmp ne') and t[4][0] in ('c', 'null'):
            v = t[4][1] if t[4][0] == 'c' else 0
            eq = (t[1] == 'icmp eq') == truth
            if not s.refine_eq(st, t[3], v, eq): return False
        elif t[0] != 'op':
            pass
        if not (t[0] == 'op' and t[1] in ('icmp eq', 'icmp ne') and t[4][0] in ('c', 'null')):
            s.setfact(st, t, ('in', frozenset((-1,) if truth else (0,))))
        return s.c.assume(st, t, truth)

    def assume_val(s, st, t, pred):
        vs = s.vset(st, t)
        if vs is not None:
            k = [v for v in vs if pred(v)]
            if not k: return False
            if t[0] != 'c' and t[0] != 'null':
                s.setfact(st, t, ('in', frozenset(k)))
        return True

    def refine_eq(s, st, x, v, eq):
        f = st.facts.get(x)
        if eq:
            if f:
                if f[0] == 'in' and v not in f[1]: return False
                if f[0] == 'nin' and v in f[1]: return False
            s.setfact(st, x, ('in', frozenset((v,))))
        else:
            if f and f[0] == 'in':
                k = f[1] - {v}
                if not k: return False
                s.setfact(st, x, ('in', k))
            elif f:
                s.setfact(st, x, ('nin', f[1] | {v}))
            else:
                s.setfact(st, x, ('nin', frozenset((v,))))
        return True

    def setfact(s, st, t, f):
        if t[0] in ('c', 'null'): return
        st.facts[t] = f

    # ---- memory ----------------------------------------------------------
    def kill(s, st, addr):
        c = cls(addr)
        r = root(addr)
        for a in list(st.mem):
            if a == addr:
                del st.mem[a]; continue
            if cls(a) == c:
                ra = root(a)
                if ra[0] == 'al' and r[0] == 'al' and ra != r: continue
                if s.c.noalias_args and a[0] == 'a' and ra != r: continue
                if (ra[0] == 'al' and ra[1] not in s.escaped and r[0] != 'al') or \
                   (r[0] == 'al' and r[1] not in s.escaped and ra[0] != 'al'): continue
                del st.mem[a]

    def killcall(s, st, ins, classes, args):
        passed = set()
        for a in args:
            r = root(a)
            if r[0] == 'al': passed.add(r[1])
        for a in list(st.mem):
            c = cls(a)
            ra = root(a)
            if ra[0] == 'al':
                if ra[1] in passed or ra[1] in s.stored:
                    if c[0] != 'F' or c in classes or ('S', c[1]) in classes or ra[1] in passed:
                        del st.mem[a]
                continue
            if c[0] == 'F':
                if (c in classes or ('S', c[1]) in classes) and (c[1], c[2]) not in s.c.immutable:
                    del st.mem[a]
            elif c[0] == 'G':
                if c in classes: del st.mem[a]
            elif a[0] == 'a' and s.c.noalias_args:
                if any(root(x) == ra for x in args): del st.mem[a]
            elif ('D',) in classes or any(root(x) == ra for x in args):
                del st.mem[a]

    def maybe_init(s, addr):
        """could the caller have stored to this slot itself?"""
        if addr[0] != 'al': return True
        return any(i.op == 'store' and i.ops[1] == addr[1] or i.op == 'getelementptr' and i.ops[0] == addr[1] or
                   i.op == 'call' and addr[1] in i.ops and i.callee.startswith('llvm.mem') if i.op != 'call' or i.callee else False
                   for i in s.cur.instrs())

    def prep(s, fn):
        """escape info of the allocas"""
        s.escaped, s.stored = set(), set()
        der = {}
        for i in fn.instrs():
            if i.op == 'alloca': der[i.id] = i.id
        ch = True
        while ch:
            ch = False
            for i in fn.instrs():
                if i.id in der: continue
                if i.op == 'getelementptr' and isinstance(i.ops[0], str) and i.ops[0] in der:
                    der[i.id] = der[i.ops[0]]; ch = True
                elif i.op in ('phi', 'select'):
                    ops = [p[0] for p in i.ops] if i.op == 'phi' else i.ops[1:]
                    for o in ops:
                        if isinstance(o, str) and o in der:
                            der[i.id] = der[o]; s.escaped.add(der[o]); ch = True
        s.der = der
        for i in fn.instrs():
            if i.op == 'call':
                for o in i.ops:
                    if isinstance(o, str) and o in der: s.escaped.add(der[o])
            elif i.op == 'store':
                o = i.ops[0]
                if isinstance(o, str) and o in der:
                    s.escaped.add(der[o]); s.stored.add(der[o])
            elif i.op in ('phi', 'select'):
                ops = [p[0] for p in i.ops] if i.op == 'phi' else i.ops[1:]
                for o in ops:
                    if isinstance(o, str) and o in der: s.escaped.add(der[o])

    def alloca_live(s, fn, b):
        """allocas with some use in b or in a block reachable from b"""
        r = getattr(fn, '_alive', None)
        if r is None:
            use = []
            for B in fn.blocks:
                u = set()
                for i in B.ins:
                    for o in i.ops:
                        for x in (o if i.op == 'phi' else (o,)):
                            if isinstance(x, str) and x in s.der: u.add(s.der[x])
                use.append(u)
            r = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for B in reversed(fn.blocks):
                    n = len(r[B.i])
                    for t in B.succ: r[B.i] |= r[t]
                    if len(r[B.i]) != n: ch = True
            fn._alive = r
        return r[b]

    # ---- joins and normalisation ------------------------------------------
    def clean(s, fn, st, b):
        live = fn.live_in[b] | {p.id for p in fn.blocks[b].phis}
        env = {k: v for k, v in st.env.items() if k in live}
        roots = set()
        for v in env.values(): subterms(v, roots)
        if s.c.keepall:
            al = s.alloca_live(fn, b)
            st.env = env
            own = getattr(fn, '_own', None)
            if own is None: own = fn._own = {i.id for B in fn.blocks for i in B.ins if i.op == 'alloca'}
            st.mem = {a: v for a, v in st.mem.items() if a[0] != 'al' or a[1] not in own or a[1] in al or a[1] in s.stored or a in roots}
            return
        for v in s.c.extra_roots(st): subterms(v, roots)
        keepm = {}
        al = s.alloca_live(fn, b)
        pend = [x for x in st.mem.items() if not (root(x[0])[0] == 'al' and root(x[0])[1] not in al and root(x[0])[1] not in s.stored and root(x[0]) not in roots)]
        ch = True
        while ch and pend:
            ch = False
            rest = []
            for a, v in pend:
                r = root(a)
                if r[0] in ('a', 'g') or r[0] == 'al' or r in roots:
                    keepm[a] = v
                    subterms(v, roots)
                    ch = True
                else:
                    rest.append((a, v))
            pend = rest
        st.env = env
        st.mem = keepm
        st.facts = {t: f for t, f in st.facts.items() if s._keepfact(t, roots)}
        if st.d:
            st.d = {t: f for t, f in st.d.items() if s._keepfact(t, roots)}

    def _keepfact(s, t, roots):
        if t[0] in ('nn', 'mb'): t = t[1]
        if t in roots: return True
        if t[0] in ('a',): return True
        for l in leaves(t) if t[0] == 'op' else (t,):
            if l[0] == 'av': l = root(l[1])
            if l in roots or root(l) in roots: continue
            if l[0] in ('a', 'g'): continue
            if root(l)[0] in ('a', 'al', 'g') and l[0] in ('f', 'x'): continue
            return False
        return True

    def again(s, fn, st, b, vals):
        """entering a loop that is unrolled: results named after an instruction of
        the body would be mixed up with those of the next round"""
        inner = {i.id for x in fn.loops[b] for i in fn.blocks[x].ins}

        memo = {}
        hold = (dict(st.facts), dict(st.env), dict(st.mem), vals)

        def tainted(t):
            r = memo.get(id(t))
            if r is None:
                if t[0] in ('ld', 'call', 'unk', 'cq', 'out', 'al2', 'al') and t[1] in inner: r = True
                else:
                    r = False
                    for x in t[1:]:
                        if isinstance(x, tuple) and x and tainted(x): r = True; break
                memo[id(t)] = r
            return r
        for t in list(st.facts):
            if tainted(t): del st.facts[t]
        for k, v in list(st.env.items()):
            if k in inner or tainted(v): del st.env[k]
        for k, v in list(st.mem.items()):
            if tainted(k) or tainted(v): del st.mem[k]
        for k, v in vals.items():
            if tainted(v): raise Broken('a loop that cannot be unrolled')

    def header(s, fn, st, b, src, newphis):
        """entering loop header: forget everything defined inside the loop"""
        body = fn.loops[b]
        inner = set()
        for x in body:
            for i in fn.blocks[x].ins: inner.add(i.id)

        memo = {}

        def tainted(t):
            r = memo.get(t)
            if r is None:
                r = False
                if t[0] in ('ld', 'call', 'phi', 'unk', 'cq', 'out', 'al2') and t[1] in inner: r = True
                elif t[0] == 'mphi' and t[1] == b: r = True
                else:
                    for x in t[1:]:
                        if isinstance(x, tuple) and tainted(x): r = True; break
                memo[t] = r
            return r
        of, od = st.facts, st.d
        env = {}
        facts = {t: f for t, f in of.items() if not tainted(t)}
        d = {t: f for t, f in od.items() if not tainted(t)}

        def move(old, new):
            vs = s.vset(st, old)
            if vs is not None and len(vs) <= s.c.VS: facts[new] = ('in', vs)
            elif old in of: facts[new] = of[old]
            elif old[0] in ('al', 'g', 'fn', 'f'):
                facts[new] = ('nin', frozenset((0,)))
            if s.c.move_term: s.c.move_term(facts, st, old, new)
            dd = s.depth(st, old)
            if dd: d[new] = dd
            if s.c.use_depth:
                nn = s.nndepth(st, old)
                if nn > dd: d[('nn', new)] = nn
        for k, v in st.env.items():
            if k in newphis: continue
            if not tainted(v): env[k] = v
        for k, v in newphis.items():
            ins = fn.by_id[k]
            nt = ('phi', k, width(ins.ty))
            move(v, nt)
            env[k] = nt
        mem = {}
        lk = s.c.loop_keep
        for a, v in st.mem.items():
            if tainted(a): continue
            if lk and lk(a) and not tainted(v):
                mem[a] = v
            elif s._modloop(fn, b, a) or tainted(v):
                w = v[-1] if v[0] in OPQ and isinstance(v[-1], int) else 64
                nt = ('mphi', b, a, w)
                move(v, nt)
                mem[a] = nt
            else:
                mem[a] = v
        st.env, st.mem, st.facts, st.d = env, mem, facts, d

    def _modloop(s, fn, b, a):
        key = (fn.name, b)
        r = s._wcache.get(key)
        if r is None:
            cl, als, calls = set(), set(), False
            for x in fn.loops[b]:
                for i in fn.blocks[x].ins:
                    if i.op == 'store':
                        cc = s.mods.addrcls(fn, i.ops[1])
                        cl |= cc
                        o = i.ops[1]
                        while isinstance(o, str) and o in fn.by_id and fn.by_id[o].op == 'getelementptr':
                            o = fn.by_id[o].ops[0]
                        if isinstance(o, str) and o in fn.by_id and fn.by_id[o].op == 'alloca': als.add(o)
                    elif i.op == 'call':
                        calls = True
                        for c in s.mod.callees(i):
                            cl |= s.mods.all.get(c, frozenset())
                        if i.callee and re.match(r'llvm\.mem(cpy|set|move)', i.callee):
                            cl |= s.mods.memcls(fn, i)
                        for o in i.ops:
                            while isinstance(o, str) and o in fn.by_id and fn.by_id[o].op == 'getelementptr':
                                o = fn.by_id[o].ops[0]
                            if isinstance(o, str) and o in fn.by_id and fn.by_id[o].op == 'alloca': als.add(o)
            r = s._wcache[key] = (cl, als, calls)
        cl, als, calls = r
        c = cls(a)
        ra = root(a)
        if ra[0] == 'al':
            if ra[1] in als or (calls and ra[1] in s.stored): return True
            return c[0] == 'F' and ra[1] in s.escaped and c in cl
        if c[0] == 'F':
            return (c in cl or ('S', c[1]) in cl) and (c[1], c[2]) not in s.c.immutable
        if c[0] == 'D':
            return calls or c in cl
        return c in cl

    def depth(s, st, t):
        if not s.c.use_depth: return 0
        if t == NULL or t == UNDEF: return 0
        best = st.d.get(t, 0)
        if t[0] == 'x' and t[3] == 1 and t[2][0] == 'c':
            b = s.depth(st, t[1]) - t[2][1]
            if b > best: best = b
        ld = s.c.leaf_depth(st, t)
        if ld and ld > best: best = ld
        return min(best, DEPTH_CAP)

    def join(s, fn, b, x, y):
        """pointwise join of two states at block b"""
        n = State()
        n.trace = x.trace
        n.user = s.c.join_user(x.user, y.user)
        if n.user is None and x.user is not None:
            return None
        env, mem, facts, d = {}, {}, {}, {}

        def fj(a, c):
            fa, fc = x.facts.get(a), y.facts.get(c)
            va = s.vset(x, a) if not (fa and fa[0] == 'nin') else None
            vc = s.vset(y, c) if not (fc and fc[0] == 'nin') else None
            if va is not None and vc is not None:
                u = va | vc
                return ('in', u) if len(u) <= s.c.VS or (len(u) <= 256 and (s.leafdom(a) or s.leafdom(c))) else None
            na = fa[1] if fa and fa[0] == 'nin' else None
            nc = fc[1] if fc and fc[0] == 'nin' else None
            if a[0] in ('al', 'g', 'fn'): na = frozenset((0,))
            if c[0] in ('al', 'g', 'fn'): nc = frozenset((0,))
            if na is not None and nc is not None: r = na & nc
            elif na is not None and vc is not None: r = na - vc
            elif nc is not None and va is not None: r = nc - va
            else: return None
            return ('nin', r) if r else None

        pairs = []

        def newt(nt, a, c):
            pairs.append((nt, a, c))
            f = fj(a, c)
            if f: facts[nt] = f
            if s.c.join_term: s.c.join_term(facts, nt, x, a, y, c)
            dd = min(s.depth(x, a), s.depth(y, c))
            if dd > 0: d[nt] = dd
            if s.c.use_depth:
                nn = min(s.nndepth(x, a), s.nndepth(y, c))
                if nn > dd: d[('nn', nt)] = nn
            return nt
        for k in x.env.keys() & y.env.keys():
            a, c = x.env[k], y.env[k]
            if a == c: env[k] = a
            else:
                ins = fn.by_id.get(k)
                env[k] = newt(('phi', k, width(ins.ty) if ins else 64), a, c)
        for k in x.mem.keys() & y.mem.keys():
            a, c = x.mem[k], y.mem[k]
            if a == c: mem[k] = a
            else:
                w = a[-1] if a[0] in OPQ and isinstance(a[-1], int) else 64
                if a[0] == 'c' and c[0] in OPQ and isinstance(c[-1], int): w = c[-1]
                mem[k] = newt(('mphi', b, k, w), a, c)
        if s.c.merge_cells and pairs:
            fx, fy = {}, {}
            for m_, o in ((x.mem, fx), (y.mem, fy)):
                for k in m_:
                    if k[0] == 'f': o.setdefault(k[1], []).append(k)
            q = 0
            while q < len(pairs) and q < 40:
                nt, a, c = pairs[q]; q += 1
                if a == c or a not in fx or c not in fy: continue
                for k in fx[a]:
                    k2 = ('f', c) + k[2:]
                    if k2 not in y.mem: continue
                    kn = ('f', nt) + k[2:]
                    if kn in mem: continue
                    v, u = x.mem[k], y.mem[k2]
                    if v == u: mem[kn] = v
                    else:
                        w = v[-1] if v[0] in OPQ and isinstance(v[-1], int) else 64
                        if v[0] == 'c' and u[0] in OPQ and isinstance(u[-1], int): w = u[-1]
                        mem[kn] = newt(('mphi', b, kn, w), v, u)
        for t in x.facts.keys() & y.facts.keys():
            if t in facts: continue
            f = fj(t, t)
            if f: facts[t] = f
        for t in x.d.keys() & y.d.keys():
            if t not in d:
                d[t] = min(x.d[t], y.d[t])
        n.env, n.mem, n.facts, n.d = env, mem, facts, d
        return n

    # ---- driver ------------------------------------------------------------
    def run(s, fn, init=None):
        s.prep(fn)
        s.cur = fn
        order = {b: k for k, b in enumerate(fn.rpo)}
        st = init
        if st is None:
            st = State()
            st.env, st.mem, st.facts, st.d, st.user, st.trace = {}, {}, {}, {}, None, None
            s.c.entry(st, fn)
        import heapq
        todo = [(0, 0)]
        inbox = {0: [st]}
        seen = {}
        nproc = 0
        s.visited = set()
        while todo:
            _, b = heapq.heappop(todo)
            sts = inbox.pop(b, None)
            if not sts: continue
            known = seen.setdefault(b, {})
            ishead = b in fn.loops
            K = s.c.KH if ishead else s.c.K
            for st in sts:
                if s.c.norm: s.c.norm(st)
                k = st.key()
                if k in known: continue
                # too many -> join with a compatible one
                if len(known) >= K:
                    cand = [z for z in known.values() if s.c.join_user(z.user, st.user) is not None or z.user is None]
                    if s.c.use_sig and len(known) < 4 * K:
                        sg = s.c.sig(s, st)
                        c2 = [z for z in cand if s.c.sig(s, z) == sg]
                        if c2: cand = c2
                        elif len(known) < 3 * K: cand = []
                    elif s.c.use_depth and len(known) < 4 * K:
                        sg = s.sig(st, fn.blocks[b])
                        c2 = [z for z in cand if s.sig(z, fn.blocks[b]) == sg]
                        if c2: cand = c2
                        elif len(known) < 3 * K: cand = []
                    done = False
                    if cand:
                        j = st
                        for z in cand:
                            j2 = s.join(fn, b, z, j)
                            if j2 is not None: j = j2
                        s.clean(fn, j, b)
                        kk = j.key()
                        if kk in known: done = True
                        else:
                            for z in cand: known.pop(z.key(), None)
                            st, k = j, kk
                    if done: continue
                    if k in known: continue
                known[k] = st
                nproc += 1
                if nproc > s.maxstates:
                    raise Broken('state budget exceeded in %s' % fn.name)
                s.visited.add(b)
                for nb, ns in s.block(fn, b, st.copy()):
                    s.clean(fn, ns, nb)
                    inbox.setdefault(nb, []).append(ns)
                    heapq.heappush(todo, (order[nb], nb))
        return nproc

    def nndepth(s, st, t):
        """depth of t provided t is not NULL"""
        if t == NULL: return DEPTH_CAP
        return max(s.depth(st, t), st.d.get(('nn', t), 0))

    def sig(s, st, B=None):
        r = []
        if B is not None:
            for p in B.phis:
                if p.ty == 'i1':
                    v = st.env.get(p.id)
                    r.append((p.id, v if v is not None and v[0] == 'c' else 's'))
        for t in list(st.env.items()) + list(st.mem.items()):
            d = s.depth(st, t[1])
            if d: r.append((t[0], d))
            if t[1] == NULL: r.append((t[0], -1))
        for t, d in st.d.items():
            if t[0] == 'a': r.append((t, d))
        for t, f in st.facts.items():
            if t[0] == 'av' or t[0] == 'op' and t[1] == 'trunc' and t[3][0] == 'av': r.append((t, f))
        return frozenset(r)

    def goto(s, fn, src, dst, st):
        B = fn.blocks[dst]
        vals = {}
        for p in B.phis:
            for v, sb in p.ops:
                if sb == src:
                    vals[p.id] = s.opnd(st, v)
        if not s.c.edge(st, fn, src, dst): return None
        st.trace = (st.trace, src) if False else st.trace
        if dst in fn.loops and s.c.unroll:
            s.again(fn, st, dst, vals)
            st.env.update(vals)
        elif dst in fn.loops:
            s.header(fn, st, dst, src, vals)
        else:
            st.env.update(vals)
        for p in B.phis:
            s.c.phi(st, p, st.env.get(p.id))
        return (dst, st)

    def block(s, fn, b, st):
        B = fn.blocks[b]
        states = [st]
        for ins in B.body[:-1] if B.term.op in ('br', 'switch', 'ret', 'unreachable') else B.body:
            nxt = []
            for st in states:
                nxt.extend(s.step(fn, ins, st))
            states = nxt
            if not states: return []
        out = []
        t = B.term
        for st in states:
            if t.op == 'br':
                if len(B.term.x['succ']) == 1:
                    r = s.goto(fn, b, B.term.x['succ'][0], st)
                    if r: out.append(r)
                else:
                    c = s.opnd(st, t.ops[0])
                    for k, truth in ((0, True), (1, False)):
                        n = st.copy()
                        if s.assume(n, c, truth):
                            r = s.goto(fn, b, t.x['succ'][k], n)
                            if r: out.append(r)
            elif t.op == 'switch':
                c = s.opnd(st, t.ops[0])
                bydst = {}
                for v, dst in t.x['cases']: bydst.setdefault(dst, []).append(v)
                allv = set(v for v, _ in t.x['cases'])
                vs = s.vset(st, c)
                w = width(t.x.get('oty', 'i32'))
                for dst, vals in bydst.items():
                    if dst == t.x['def']: continue
                    n = st.copy()
                    if s.switch_assume(n, c, set(vals), None):
                        r = s.goto(fn, b, dst, n)
                        if r: out.append(r)
                n = st.copy()
                dv = set(bydst.get(t.x['def'], ()))
                if s.switch_assume(n, c, None, allv - dv):
                    r = s.goto(fn, b, t.x['def'], n)
                    if r: out.append(r)
            elif t.op == 'ret':
                v = s.opnd(st, t.ops[0]) if t.ops else None
                s.c.ret(st, t, v)
        return out

    def switch_assume(s, st, c, inn, nin):
        ok = (lambda v: v in inn) if inn is not None else (lambda v: v not in nin)
        if c[0] == 'c': return ok(c[1])
        ls = leaves(c)
        if len(ls) == 1:
            l = next(iter(ls))
            f = st.facts.get(l)
            dom = f[1] if f and f[0] == 'in' else s.leafdom(l)
            if dom is not None and len(dom) <= 256:
                if f and f[0] == 'nin': dom = [v for v in dom if v not in f[1]]
                keep = []
                for v in dom:
                    e = evalop(c, l, v)
                    if e is None: keep = None; break
                    if ok(e): keep.append(v)
                if keep is not None:
                    if not keep: return False
                    s.setfact(st, l, ('in', frozenset(keep)))
                    return s.c.assume(st, c, True)
        f = st.facts.get(c)
        if inn is not None:
            k = set(inn)
            if f:
                k = {v for v in k if (v in f[1]) == (f[0] == 'in')}
            if not k: return False
            s.setfact(st, c, ('in', frozenset(k)))
        else:
            if f and f[0] == 'in':
                k = f[1] - nin
                if not k: return False
                s.setfact(st, c, ('in', k))
            else:
                s.setfact(st, c, ('nin', frozenset(nin) | (f[1] if f else frozenset())))
        return s.c.assume(st, c, True)

    def step(s, fn, ins, st):
        op = ins.op
        if op == 'load':
            addr = s.opnd(st, ins.ops[0])
            v = st.mem.get(addr)
            if v is None:
                v = s.c.load(st, ins, addr, None)
                if v is None:
                    c = cls(addr)
                    if c[0] == 'F' and (c[1], c[2]) in s.c.immutable:
                        v = ('av', addr, width(ins.ty))
                    else:
                        v = ('ld', ins.id, addr, width(ins.ty))
                st.mem[addr] = v
            else:
                s.c.load(st, ins, addr, v)
            st.env[ins.id] = v
        elif op == 'store':
            v = s.opnd(st, ins.ops[0])
            addr = s.opnd(st, ins.ops[1])
            s.c.store(st, ins, addr, v)
            s.kill(st, addr)
            st.mem[addr] = v
        elif op == 'alloca':
            st.env[ins.id] = ('al', ins.id)
        elif op == 'getelementptr':
            st.env[ins.id] = s.gep(st, ins)
        elif op == 'call':
            return s.call(fn, ins, st)
        elif op == 'icmp':
            st.env[ins.id] = s.simp('icmp ' + ins.x['pred'], width(ins.x['oty']),
                                    s.opnd(st, ins.ops[0]), s.opnd(st, ins.ops[1]))
        elif op in ('zext', 'sext'):
            sw = width(ins.x['sty'])
            a = s.opnd(st, ins.ops[0])
            if a[0] == 'c':
                st.env[ins.id] = C(ux(a[1], sw) if op == 'zext' else sx(a[1], sw))
            else:
                st.env[ins.id] = ('op', op, width(ins.ty), a, sw)
        elif op == 'trunc':
            st.env[ins.id] = s.simp('trunc', width(ins.ty), s.opnd(st, ins.ops[0]))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            st.env[ins.id] = s.simp(op, width(ins.ty), s.opnd(st, ins.ops[0]), s.opnd(st, ins.ops[1]))
        elif op == 'select':
            st.env[ins.id] = s.simp('select', width(ins.ty), *[s.opnd(st, o) for o in ins.ops])
        elif op == 'freeze':
            st.env[ins.id] = s.opnd(st, ins.ops[0])
        elif s.c.fp and op in FPOPS:
            nm = op + (' ' + ins.ty if op in ('fptrunc', 'fpext') else ' ' + ins.x['pred'] if op == 'fcmp' else '')
            st.env[ins.id] = ('op', nm, width(ins.ty)) + tuple(s.opnd(st, o) for o in ins.ops)
        else:
            st.env[ins.id] = ('unk', ins.id)
        s.c.instr(st, ins, st.env.get(ins.id))
        return [st]

    def call(s, fn, ins, st):
        args = [s.opnd(st, o) for o in ins.ops]
        name = ins.callee
        if name and name.startswith('llvm.'):
            if re.match(r'llvm\.mem(cpy|move|set)', name):
                s.c.call(st, ins, args)
                s.killmem(st, ins, args, fn)
            return [st]
        r = s.c.call(st, ins, args)
        if r is not None:
            outs = r
        else:
            outs = [(st, None)]
        if ins.x.get('noret'):
            return []
        classes = set()
        for c in s.mod.callees(ins):
            classes |= s.mods.all.get(c, frozenset())
        fk = getattr(s.c, 'filter_kill', None)
        if fk: classes = fk(ins, classes)
        res = []
        for st2, rv in outs:
            keep = getattr(s.c, 'post', None)
            s.killcall(st2, ins, classes, args)
            if rv is None: rv = ('call', ins.id, width(ins.ty))
            st2.env[ins.id] = rv
            if keep: s.c.post(st2, ins, args, rv)
            res.append(st2)
        return res

    def killmem(s, st, ins, args, fn):
        dst = args[0]
        r = root(dst)
        n = args[2]
        names = s.mods.sizes.get(n[1], ()) if n[0] == 'c' else ()
        cp = ins.callee.startswith('llvm.memcpy')
        zero = ins.callee.startswith('llvm.memset') and args[1] == C(0)
        new = {}
        if cp and n[0] == 'c':
            for a, v in st.mem.items():
                if a[0] == 'f' and a[1] == args[1] and a[2] in names:
                    new[('f', dst, a[2], a[3])] = v
        if zero:
            for nm in names:
                for f in s.mod.di.get(nm, []):
                    new[('f', dst, nm, f['name'])] = NULL if '*' in f['ty'] else C(0)
        for a in list(st.mem):
            ra = root(a)
            if r[0] == 'al':
                if ra == r: del st.mem[a]
                continue
            if ra == r or ra == dst:
                del st.mem[a]
            elif a[0] == 'f' and (a[2] in names or not names) and not (ra[0] == 'al' and ra[1] not in s.escaped):
                del st.mem[a]
        st.mem.update(new)
