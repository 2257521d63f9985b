"""Balance of the code generator's temporary stack.

The primitives are found by what they do: a function that stores depth+1 / depth-1
to the global stack record.  Every other function of the generator gets a summary:
which slots it takes off and leaves on the stack, per outcome of its paths."""
import re
from ir import Broken
from absint import *

STK = 'tmp_stack'


class Prims:
    def __init__(s, mod):
        s.push, s.pop = set(), set()
        if STK not in mod.globals: raise Broken('global %s not found' % STK)
        for f in mod.defs.values():
            for i in f.instrs():
                if i.op != 'store': continue
                if not (isinstance(i.ops[1], list) and i.ops[1][:2] == ['g', STK]): continue
                v = f.by_id.get(i.ops[0]) if isinstance(i.ops[0], str) else None
                if v is None or v.op not in ('add', 'sub'): continue
                l = f.by_id.get(v.ops[0]) if isinstance(v.ops[0], str) else None
                if l is None or l.op != 'load' or l.ops[0] != i.ops[1] or v.ops[1][0] != 'i': continue
                n = v.ops[1][1] * (1 if v.op == 'add' else -1)
                if n == 1: s.push.add(f.name)
                elif n == -1: s.pop.add(f.name)
        if not s.push or not s.pop: raise Broken('no function pushes/pops %s' % STK)


class BalClient(Client):
    K, KH = 8, 6
    use_sig = True

    def sig(s, eng, st):
        """what is known about local decisions"""
        r = []
        for t, f in st.facts.items():
            ls = leaves(t) if t[0] == 'op' else (t,)
            if ls and all(l[0] in ('call', 'out', 'phi') or l[0] in ('ld', 'mphi') and root(l[2])[0] == 'al' for l in ls): r.append((t, f))
        for k, v in st.env.items():
            i = s.fn.by_id.get(k)
            if i is not None and i.ty in ('i1', 'i8') and v[0] == 'c': r.append((k, v))
        return frozenset(r)

    def __init__(s, an): s.an = an

    def entry(s, st, fn):
        s.fn = fn
        # (slots, taken below entry, reserved line still open, condition tags)
        st.user = ((), (), (), frozenset())

    def join_user(s, a, b): return a if a == b else None

    def filter_kill(s, ins, classes):
        if any(c in s.an.rec for c in s.eng.mod.callees(ins)):
            return {c for c in classes if c[0] != 'F' or c[1] not in s.an.tree}
        return classes

    def pushslot(s, st, cls_, site):
        a, b, p, c = st.user
        if len(a) > 14: raise Loop()
        st.user = (a + ((cls_, site),), b, p, c)

    def popslot(s, st, want, ins, key=None):
        """want: class accepted besides ST, or 'B' for a bundle"""
        a, b, p, c = st.user
        if not a:
            if len(b) > 14: raise Loop()
            st.user = (a, b + (want,), p, c)
            return True
        top = a[-1]
        cl = top[0]
        a = a[:-1]
        if not a: c = frozenset()
        st.user = (a, b, p, c)
        wb, tb = isinstance(want, tuple), isinstance(cl, tuple)
        if wb and tb and want[:2] == cl[:2] and want != cl:
            s.an.report(s.fn, ins, 'count', 'takes a different number of slots off the temporary stack than were put at %s (%s instead of %s)'
                        % (top[1], want[2], cl[2]))
        elif wb != tb or (wb and want != cl) or (not wb and cl not in ('ST', want) and want != '?'):
            s.an.report(s.fn, ins, 'pop', 'takes a slot of class %s off the temporary stack where class %s was put at %s'
                        % (s.show(want), s.show(cl), top[1]))
        return True

    def show(s, c):
        return 'bundle' if isinstance(c, tuple) else c

    def call(s, st, ins, args):
        an = s.an
        n = ins.callee
        if n is None or n not in an.mod.defs: return None
        s.an.ncalls += 1
        if n in an.prims.push:
            k = args[0] if args else None
            cl = an.slotcls.get(k[1]) if k and k[0] == 'c' else None
            if cl is None:
                s.an.report(s.fn, ins, 'push', 'puts a slot of unknown class on the temporary stack')
                cl = 'ST'
            s.pushslot(st, cl, ins.loc)
            return [(st, None)]
        if n in an.prims.pop:
            s.popslot(st, an.accepts(s.fn, ins), ins)
            a, b, p, c = st.user
            st.user = (a, b, p + (ins.id,), c)
            return [(st, None)]
        if n in an.filler:
            a, b, p, c = st.user
            k = an.filler[n]
            t = args[k] if k < len(args) else None
            if t and t[0] in ('ld', 'av') and t[2 if t[0] == 'ld' else 1][0] == 'f':
                base = t[2 if t[0] == 'ld' else 1][1]
                if base[0] == 'call' and base[1] in p: p = tuple(x for x in p if x != base[1])
            elif t and t[0] == 'call':
                p = tuple(x for x in p if x != t[1])
            st.user = (a, b, p, c)
            return [(st, None)]
        if n in an.reserve:
            a, b, p, c = st.user
            return None
        if n not in an.fnset: return None
        sm = an.sum.get(n)
        if sm is None: return []
        if isinstance(sm, str):     # a loop of pushes or pops
            key = ('B', args[0] if args else None, an.lens[n])
            if sm == 'push': s.pushslot(st, key, ins.loc)
            else: s.popslot(st, key, ins)
            return [(st, None)]
        outs = []
        multi = len({e for e, _ in sm}) > 1
        for (pops, pushes), conds in sorted(sm, key=repr):
            x = st.copy()
            ok = True
            tags = []
            for t, f in sorted(conds, key=repr):
                t2 = s.subst(x, t, args, ins)
                if t2 is None: continue
                vs = s.eng.vset(x, t2)
                cur = x.facts.get(t2)
                if f[0] == 'in':
                    if vs is not None:
                        k = frozenset(v for v in vs if v in f[1])
                        if not k: ok = False; break
                        if t2[0] not in ('c', 'null'): x.facts[t2] = ('in', k)
                    elif cur and cur[0] == 'nin':
                        k = frozenset(v for v in f[1] if v not in cur[1])
                        if not k: ok = False; break
                        x.facts[t2] = ('in', k)
                    else: x.facts[t2] = f
                else:
                    if vs is not None:
                        k = frozenset(v for v in vs if v not in f[1])
                        if not k: ok = False; break
                        if t2[0] not in ('c', 'null'): x.facts[t2] = ('in', k)
                    else: x.facts[t2] = ('nin', f[1] | (cur[1] if cur and cur[0] == 'nin' else frozenset()))
                tags.append((t2, f))
            if not ok: continue
            for w in pops:
                if isinstance(w, tuple): w = ('B', s.subst(x, w[1], args, ins), w[2])
                s.popslot(x, w, ins)
            for w in pushes:
                if isinstance(w, tuple): w = ('B', s.subst(x, w[1], args, ins), w[2])
                s.pushslot(x, w, ins.loc)
            if multi and x.user[0]:
                a, b, p, c = x.user
                x.user = (a, b, p, c | frozenset(tags))
            outs.append((x, None))
        return outs

    def subst(s, st, t, args, ins):
        if t is None: return None
        k = t[0]
        if k == 'a': return args[t[1]] if t[1] < len(args) else None
        if k in ('c', 'null', 'g', 'fn'): return t
        if k in ('ld', 'av'):
            ad = s.subst(st, t[2] if k == 'ld' else t[1], args, ins)
            if ad is None: return None
            v = st.mem.get(ad)
            if v is None:
                c = cls(ad)
                v = ('av', ad, t[-1]) if c[0] == 'F' and (c[1], c[2]) in s.immutable else ('ld', ins.id + 's', ad, t[-1])
                st.mem[ad] = v
            return v
        if k in ('f', 'x'):
            b = s.subst(st, t[1], args, ins)
            return None if b is None else (k, b) + t[2:]
        if k == 'op':
            r = []
            for x in t[3:]:
                if isinstance(x, tuple):
                    x = s.subst(st, x, args, ins)
                    if x is None: return None
                r.append(x)
            return ('op', t[1], t[2]) + tuple(r)
        return None

    def ret(s, st, ins, val):
        a, b, p, c = st.user
        an = s.an
        if p:
            an.report(s.fn, s.fn.by_id[p[0]], 'fill',
                      'the line reserved for a saved value is not filled in on some path')
        conds = set()
        for t, f in st.facts.items():
            ls = leaves(t) if t[0] == 'op' else (t,)
            if ls and all(s.argterm(l) for l in ls): conds.add((t, f))
        eff = (b, tuple(x[0] for x in a))
        an.new.append((eff, frozenset(conds), [x[1] for x in a], ins))

    def argterm(s, l):
        if l[0] == 'a': return True
        if l[0] == 'ld': return root(l[2])[0] == 'a' or s.argterm(root(l[2]))
        if l[0] == 'av': return root(l[1])[0] == 'a' or s.argterm(root(l[1]))
        return False


def written_fields(mod, files):
    """fields stored into objects that existed before (not locals, not fresh allocations)"""
    ALLOC = ('malloc', 'calloc', 'realloc', 'arena_malloc', 'arena_calloc')
    w = set()
    for f in mod.defs.values():
        if f.file not in files: continue
        for i in f.instrs():
            if i.op != 'store' or not isinstance(i.ops[1], str): continue
            g = f.by_id.get(i.ops[1])
            c = None
            b = i.ops[1]
            while g is not None and g.op == 'getelementptr':
                if c is None and g.x['sty'].startswith(('%struct', '%union')) and len(g.ops) > 2: c = mod.field(g.x['sty'], g.ops[2][1])
                b = g.ops[0]
                g = f.by_id.get(b) if isinstance(b, str) else None
            if c is None: continue
            if g is not None and (g.op == 'alloca' or g.op == 'call' and g.callee in ALLOC): continue
            w.add(c)
    return w


class Loop(Exception): pass


class Balance:
    def __init__(s, mod, files=('codegen.c',)):
        s.mod = mod
        s.prims = Prims(mod)
        e = mod.enums.get('SlotKind') or {}
        s.slotcls = {}
        for nm in ('SL_GP', 'SL_FP', 'SL_ST'): s.slotcls[mod.E(nm)] = nm[3:]
        s.mods = Mods(mod)
        reach = mod.reachable([n for n in mod.defs if mod.fns[n].file in files])
        touch = set()
        for n in reach: touch |= s.prims.push if 0 else set()
        # functions that can reach a primitive
        pr = s.prims.push | s.prims.pop
        s.fns = [n for n in mod.defs if n in reach and n not in pr and pr & mod.reachable([n])]
        s.filler, s.reserve = {}, set()
        s.find_lines(reach)
        s.fns += [n for n in mod.defs if n in reach and n not in s.fns and n not in pr and
                  any(i.callee in s.reserve for i in mod.defs[n].calls())]
        s.fnset = set(s.fns)
        s.rec = set()
        for c in mod.sccs():
            if len(c) > 1 or c[0] in mod.cg[c[0]]: s.rec |= set(c)
        written = written_fields(mod, files)
        s.tree = ('Node', 'Type', 'Obj', 'Member', 'AsmParam')
        imm = set()
        for stn, fs in mod.di.items():
            if stn in s.tree:
                imm |= {(stn, f['name']) for f in fs if (stn, f['name']) not in written}
        s.imm = frozenset(imm)
        s.sum, s.rep, s.ncalls, s.npaths = {}, {}, 0, 0
        s._acc = {}
        s.lens = {}

    def find_lines(s, reach):
        """reserve: returns a position in the output; filler: writes there"""
        m = s.mod
        ps = set()
        for n in s.prims.push:
            for i in m.defs[n].calls():
                if i.callee in m.defs and m.fns[i.callee].ret == 'i64': ps.add(i.callee)
        if not ps: raise Broken('no reserved-line function')
        s.reserve = ps
        # callers' argument that receives a slot's saved position
        for n in m.defs:
            f = m.defs[n]
            for i in f.calls():
                for k, o in enumerate(i.ops):
                    j = f.by_id.get(o) if isinstance(o, str) else None
                    if j is None: continue
                    if j.op == 'call' and j.callee in ps and i.callee in m.fns: s.filler[i.callee] = k
                    if j.op == 'load' and isinstance(j.ops[0], str):
                        g = f.by_id.get(j.ops[0])
                        if g is not None and g.op == 'getelementptr' and g.x['sty'].startswith('%struct') and len(g.ops) > 2 \
                           and m.field(g.x['sty'], g.ops[2][1]) == ('Slot', 'loc') and i.callee: s.filler[i.callee] = k
        if not s.filler: raise Broken('nothing fills reserved lines')

    def accepts(s, fn, ins):
        """slot class that the code after a pop distinguishes"""
        k = (fn.name, ins.id)
        if k in s._acc: return s._acc[k]
        r = set()
        for i in fn.instrs():
            if i.op == 'icmp':
                j = fn.by_id.get(i.ops[0]) if isinstance(i.ops[0], str) else None
                if j is not None and j.op == 'load' and isinstance(j.ops[0], str):
                    g = fn.by_id.get(j.ops[0])
                    if g is not None and g.op == 'getelementptr' and g.ops[0] == ins.id and \
                       s.mod.field(g.x['sty'], g.ops[2][1])[1] == 'kind' and isinstance(i.ops[1], list):
                        r.add(s.slotcls.get(i.ops[1][1]))
            elif i.op == 'switch':
                j = fn.by_id.get(i.ops[0]) if isinstance(i.ops[0], str) else None
                if j is not None and j.op == 'load' and isinstance(j.ops[0], str):
                    g = fn.by_id.get(j.ops[0])
                    if g is not None and g.op == 'getelementptr' and g.ops[0] == ins.id and s.mod.field(g.x['sty'], g.ops[2][1])[1] == 'kind':
                        for v, _ in i.x['cases']: r.add(s.slotcls.get(v))
        r.discard('ST')
        v = s._acc[k] = r.pop() if len(r) == 1 else 'ST' if not r else '?'
        return v

    def report(s, fn, ins, key, msg):
        s.rep.setdefault(fn.name, {})[(key, ins.id)] = (ins, key, msg)

    def trips(s, fn, prims):
        """slots moved for each constant value of the first parameter, by
        propagating constants round the loop"""
        direct = {n for n in s.mod.defs if prims & s.mod.reachable([n])}
        r = []
        for v in range(1, 49):
            env = {'a0': v}
            b, prev, cnt, steps = 0, None, 0, 0
            while True:
                B = fn.blocks[b]
                for p in B.phis:
                    for x, sb in p.ops:
                        if sb == prev: env[p.id + "'"] = s.cval(env, x)
                for p in B.phis: env[p.id] = env.pop(p.id + "'", None)
                nxt = None
                for i in B.body:
                    steps += 1
                    if i.op == 'call' and i.callee in direct: cnt += 1
                    elif i.op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'sext', 'zext', 'trunc'):
                        o = [s.cval(env, x) for x in i.ops]
                        env[i.id] = None if None in o else s.cop(i, o)
                    elif i.op == 'br':
                        if len(i.x['succ']) == 1: nxt = i.x['succ'][0]
                        else:
                            c = s.cval(env, i.ops[0])
                            if c is None: return ('?',)
                            nxt = i.x['succ'][0 if c & 1 else 1]
                    elif i.op == 'switch': return ('?',)
                    if i.x.get('noret'): break
                if nxt is None or steps > 5000: break
                prev, b = b, nxt
            r.append(cnt)
        return tuple(r)

    def cval(s, env, x):
        if isinstance(x, list): return x[1] if x[0] == 'i' else None
        return env.get(x)

    def cop(s, i, o):
        w = width(i.x.get('oty', i.ty) if i.op == 'icmp' else i.ty)
        a = o[0]; b = o[1] if len(o) > 1 else 0
        k = i.op
        if k == 'icmp':
            p = i.x['pred']
            if p[0] == 'u': a, b = ux(a, w), ux(b, w)
            return int({'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b,
                        'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[p])
        if k in ('sdiv', 'srem'):
            if b == 0: return None
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if k == 'sdiv' else a - q * b
        if k == 'zext': return ux(a, width(i.x['sty']))
        if k == 'sext': return a
        r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'trunc': a,
             'shl': a << (b & 63), 'ashr': a >> (b & 63), 'lshr': ux(a, w) >> (b & 63)}[k]
        return sx(r, w)

    def analyse(s, n):
        fn = s.mod.fns[n]
        c = BalClient(s)
        c.immutable = s.imm
        e = Engine(s.mod, c, s.mods, maxstates=60000)
        c.eng = e
        s.rep.pop(n, None)
        s.new = []
        try: e.run(fn)
        except Loop:
            # only pushes or only pops
            d = {x.callee for x in fn.calls()}
            r = s.mod.reachable([n])
            up, dn = bool(r & s.prims.push), bool(r & s.prims.pop)
            if up and dn:
                s.report(fn, fn.blocks[0].ins[0], 'loop', 'the temporary stack grows or shrinks in a loop')
                return frozenset({(((), ()), frozenset())})
            s.lens[n] = s.trips(fn, s.prims.push if up else s.prims.pop)
            return 'push' if up else 'pop'
        s.npaths += len(s.new)
        if not s.new: return None
        effs = {x[0] for x in s.new}
        if len(effs) > 1 and n in s.rec:
            cnt = {}
            for x in s.new: cnt[x[0]] = cnt.get(x[0], 0) + 1
            z = ((), ())
            base = z if z in effs else max(cnt, key=lambda k: (cnt[k], repr(k)))
            for ef, cd, sites, ins in s.new:
                if ef == base: continue
                w = []
                if ef[0]: w.append('takes %d slot(s) it did not put there' % len(ef[0]))
                if ef[1]: w.append('leaves %d slot(s), put at %s' % (len(ef[1]), ', '.join(sites)))
                s.report(fn, ins, 'return', 'a path to this return ' + ' and '.join(w))
            return frozenset({(base, frozenset())})
        if len(effs) == 1: return frozenset({(effs.pop(), frozenset())})
        if all(not x[1] for x in s.new):     # as often as some mask or count says
            if not any(e[0] for e in effs):
                s.lens[n] = tuple(sorted({len(e[1]) for e in effs}))
                return 'push'
            if not any(e[1] for e in effs):
                s.lens[n] = tuple(sorted({len(e[0]) for e in effs}))
                return 'pop'
        return frozenset((x[0], x[1]) for x in s.new)

    def run(s):
        order = [x for c in s.mod.sccs() for x in c if x in s.fnset]
        deps = {}
        for n in order:
            for c in s.mod.cg[n]: deps.setdefault(c, set()).add(n)
        rank = {n: k for k, n in enumerate(order)}
        work = set(order)
        it = 0
        while work:
            n = min(work, key=lambda x: rank[x]); work.discard(n)
            it += 1
            if it > 2000: raise Broken('balance fixpoint did not converge')
            r = s.analyse(n)
            if r != s.sum.get(n):
                s.sum[n] = r
                work |= {d for d in deps.get(n, ()) if d in rank}
        s.it = it
        # entry functions must be neutral
        for n in order:
            if not [i for i in s.mod.callers.get(n, ()) if i.fn.name in s.fnset]:
                sm = s.sum.get(n)
                if sm is None: continue
                if isinstance(sm, str) or any(e != ((), ()) for e, _ in sm):
                    f = s.mod.fns[n]
                    s.report(f, f.blocks[0].ins[0], 'entry', 'leaves the temporary stack unbalanced')
        for n in order:
            if s.sum.get(n) is None and n not in s.mod.addr_taken:
                pass
        return s
