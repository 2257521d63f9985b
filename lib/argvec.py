"""P22: the argument vector is never read beyond its end, and the missing argument of an option is noticed."""
import ir
from absint import Engine, Client, Mods, C, root


class AClient(Client):
    K, KH = 20, 6

    def __init__(s, an, fn, av, ac): s.an, s.fn, s.av, s.ac = an, fn, av, ac

    def entry(s, st, fn): st.user = (0,)

    def norm(s, st):
        for a in [a for a in st.mem if root(a)[0] != 'al']: del st.mem[a]
        for t in [t for t in st.facts if not s.about(t)]: del st.facts[t]
        for d in (st.env, st.mem):
            for k, v in d.items():
                r = v
                while r[0] in ('x', 'f'): r = r[1]
                if r[0] == 'av' and r[1][0] == 'arg': d[k] = ('unk', 'arg') if s.nonnull(st, r[1][1]) else r
        for t in [t for t in st.facts if t[0] == 'rdb' and (s.below(st, t[1]) or s.nonnull(st, t[1]))]: del st.facts[t]

    def about(s, t):
        if t[0] == 'av' and t[1][0] == 'arg' or t[0] == 'rdb': return True
        if t[0] == 'op': return t[1].startswith('icmp') and (t[3] == s.ac or t[4] == s.ac)
        return t[0] == 'phi' and t[-1] == 1

    def isvec(s, a): return a == s.av or a[0] == 'x' and a[1] == s.av

    def below(s, st, idx):
        """idx < argc on this path"""
        if idx == C(0): return True
        for t, f in st.facts.items():
            if t[0] != 'op' or not t[1].startswith('icmp ') or f[0] != 'in' or len(f[1]) != 1: continue
            truth = next(iter(f[1])) != 0
            p, a, b = t[1][5:], t[3], t[4]
            for x, y, q in ((a, b, p), (b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[p])):
                if s.same(x, idx) and y == s.ac:
                    if q in ('slt', 'ult', 'ne') and truth or q in ('sge', 'uge', 'eq') and not truth: return True
        v = st.mem.get(s.addr(idx)) if False else None
        return False

    def strip(s, t):
        while t[0] == 'op' and t[1] in ('sext', 'zext', 'trunc'): t = t[3]
        return t

    def same(s, a, b): return s.strip(a) == s.strip(b)

    def idx(s, addr):
        return C(0) if addr == s.av else addr[2]

    def prev(s, i):
        t = s.strip(i)
        if t[0] == 'c': return C(t[1] - 1)
        if t[0] == 'op' and t[1] == 'add' and t[4][0] == 'c':
            k = t[4][1] - 1
            return t[3] if k == 0 else ('op', 'add', t[2], t[3], C(k))
        return None

    def elem(s, i):
        i = s.strip(i)
        return ('av', ('arg', i), 64)

    def nonnull(s, st, i):
        if s.below(st, i): return True
        f = st.facts.get(s.elem(i))
        if f and (f[0] == 'nin' and 0 in f[1] or f[0] == 'in' and 0 not in f[1]): return True
        return False

    def extra_roots(s, st): return [l for l in st.facts if l[0] == 'rdb'] + [('arg', l[1][1]) for l in st.facts if l[0] == 'av' and l[1][0] == 'arg']

    def load(s, st, ins, addr, val):
        if s.isvec(addr):
            i = s.idx(addr)
            s.an.nloads.add((s.fn.name, ins.id))
            if not s.readable(st, i):
                    s.an.report(s.fn, ins, 'beyond', 'reads the argument vector where its end may have been passed')
            return s.elem(i)
        s.deref(st, ins, addr)
        return None

    def readable(s, st, i):
        if s.nonnull(st, i) or ('rdb', s.strip(i)) in st.facts: return True
        p = s.prev(i)
        return p is not None and s.nonnull(st, p)

    def edge(s, st, fn, src, dst):
        s.rd = set()
        if dst in fn.loops:
            for p in fn.blocks[dst].phis:
                if p.ty not in ('i32', 'i64'): continue
                for v, b in p.ops:
                    if b == src and s.readable(st, s.eng.opnd(st, v)): s.rd.add(p.id)
        return True

    def join_term(s, facts, nt, x, a, y, c):
        if nt[-1] not in (32, 64): return
        if s.ac is not None and s.below(x, a) and s.below(y, c): facts[('op', 'icmp slt', 32, nt, s.ac)] = ('in', frozenset((-1,)))
        elif s.nonnull(x, a) and s.nonnull(y, c): facts[s.elem(nt)] = ('nin', frozenset((0,)))
        elif s.readable(x, a) and s.readable(y, c): facts[('rdb', nt)] = ('in', frozenset((1,)))

    def phi(s, st, ins, val):
        if ins.id in s.rd and val is not None and val[0] == 'phi': st.facts[('rdb', val)] = ('in', frozenset((1,)))

    def deref(s, st, ins, addr):
        r = addr
        while r[0] in ('x', 'f'): r = r[1]
        if r[0] == 'av' and r[1][0] == 'arg':
            s.an.nuses += 1
            if not s.nonnull(st, r[1][1]):
                s.an.report(s.fn, ins, 'missing', 'uses an argument that may be missing')

    def store(s, st, ins, addr, val):
        s.deref(st, ins, addr)
        if addr[0] != 'al': s.deref(st, ins, val)

    def call(s, st, ins, args):
        for a in args: s.deref(st, ins, a)


class Argvec:
    def __init__(s):
        m = ir.load()
        vec = {n for n, f in m.defs.items() for t in f.argty if t.replace(' ', '') == 'char**'}
        # helpers of the functions that walk the vector
        inl = {n for n in m.defs if n in vec and m.defs[n].local and not m.defs[n].loops and n not in m.addr_taken}
        inl |= {c for n in inl for c in m.cg[n] if c in m.defs and m.defs[c].local and any(t.replace(' ', '') == 'char**' for t in m.defs[c].argty)}
        m = ir.load(keep=[n for n in m.fns if n not in inl])
        s.mod, s.mods = m, Mods(m)
        s.inlined = sorted(inl)
        s.rep = {}
        s.nloads = set()
        s.nuses = s.nfns = 0

    def report(s, fn, ins, k, msg): s.rep.setdefault((fn.name, k, ins.loc), (ins, 'in %s(): %s' % (fn.name, msg)))

    def run(s):
        m = s.mod
        todo, seen = [('main', 1, 0)], set()
        while todo:
            n, k, c = todo.pop()
            if (n, k) in seen: continue
            seen.add((n, k))
            f = m.fn(n)
            cl = AClient(s, f, ('a', k), ('a', c) if c is not None else None)
            e = Engine(m, cl, s.mods); cl.eng, cl.mod = e, m
            e.run(f); s.nfns += 1
            for i in f.calls():
                for j, o in enumerate(i.ops):
                    if o == 'a%d' % k and i.callee in m.defs:
                        cc = [q for q, x in enumerate(i.ops) if c is not None and x == 'a%d' % c]
                        todo.append((i.callee, j, cc[0] if cc else None))
                        if not cc: s.report(f, i, 'nocount', 'passes the argument vector without its length')
        return s
