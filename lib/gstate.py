"""Save/restore discipline of the parser's context variables.

Each tracked global starts a function with the symbol ('g0', name).  Summaries
say, per outcome, what every tracked global holds at exit in terms of entry
values, parameters and constants."""
from ir import Broken
from absint import *
from tmpstk import written_fields, BalClient

UNK = ('?',)


class GClient(Client):
    K, KH = 8, 5
    use_sig = True

    def __init__(s, an):
        s.an = an

    def loop_keep(s, a): return a in s.an.vars

    def entry(s, st, fn):
        s.fn = fn
        for g in s.an.vars: st.mem[g] = ('g0', g)
        st.user = (None, frozenset())

    def join_user(s, a, b): return a if a == b else None

    def sig(s, eng, st):
        r = []
        for t, f in st.facts.items():
            ls = leaves(t) if t[0] == 'op' else (t,)
            if ls and all(l[0] in ('call', 'phi') or l[0] in ('ld', 'mphi') and root(l[2])[0] == 'al' for l in ls): r.append((t, f))
        for k, v in st.env.items():
            i = s.fn.by_id.get(k)
            if i is not None and i.ty in ('i1', 'i8') and v[0] == 'c': r.append((k, v))
        return frozenset(r)

    def norm(s, st):
        for g in s.an.vars:         # a flag saved and restored goes through conversions
            v = w = st.mem.get(g, UNK)
            while v[0] == 'op' and (v[1] in ('zext', 'trunc') or v[1] in ('and', 'icmp ne') and v[4] in (C(1), C(0))): v = v[3]
            if v != w and v[0] == 'g0': st.mem[g] = v
        st.user = (tuple(st.mem.get(g, UNK) for g in s.an.vars), st.user[1])

    def filter_kill(s, ins, classes):
        return {c for c in classes if not (c[0] == 'F' and c[1:] in s.an.frameonly or c[0] == 'S' and c not in s.an.sbad)}

    def assume(s, st, c, truth):
        # x == y for a tracked x: prefer the parameter as its name
        if c[0] == 'op' and c[1] in ('icmp eq', 'icmp ne') and (c[1] == 'icmp eq') == truth:
            for x, y in ((c[3], c[4]), (c[4], c[3])):
                if y[0] == 'a' or y[0] == 'g0':
                    for g in s.an.vars:
                        if st.mem.get(g) == x and x[0] not in ('c', 'null'): st.mem[g] = y
        return True

    def store(s, st, ins, addr, val):
        an = s.an
        if addr == an.scope and val[0] in ('ld', 'av'):
            ad = val[2] if val[0] == 'ld' else val[1]
            if ad[0] == 'f' and ad[2:] == ('Type', 'scopes'):
                # the scope of a prototype hangs below the scope it was written in
                st.mem[('f', val, 'Scope', 'parent')] = st.mem.get(addr, UNK)
        if addr == an.scope: st.user = (st.user[0], st.user[1] | {'scope'})
        if addr in an.vars: an.nstores += 1

    def leave(s, st, t, args):
        k = t[0]
        if k == 'g0': return s.old.get(t[1], UNK)
        if k == 'a': return args[t[1]] if t[1] < len(args) else UNK
        return t

    def call(s, st, ins, args):
        an = s.an
        n = ins.callee
        if n is None: 
            return None
        if n in an.arena and args and args[0][0] == 'g':
            g = ('g', args[0][1], an.onoff + args[0][2])
            v = an.arena[n]
            an.nstores += 1
            if g in an.vars:
                cur = st.mem.get(g)
                if v == 1 and cur == C(1):
                    an.report(s.fn, ins, 'arena', 'starts an arena that is already in use')
                st2 = st.copy(); st2.env['__g'] = tuple((x, C(v) if x == g else st.mem.get(x, UNK)) for x in an.vars)
                return [(st2, None)]
            return None
        if n not in an.fnset:
            if n in an.mod.defs:     # does not touch the context at all
                st2 = st.copy(); st2.env['__g'] = tuple((x, st.mem.get(x, UNK)) for x in an.vars)
                return [(st2, None)]
            return None
        sm = an.sum.get(n)
        if sm is None: return []
        outs = []
        multi = len({x[0] for x in sm}) > 1
        for chg, rt, conds, opened in sorted(sm, key=repr):
            x = st.copy()
            if multi and not s.applyconds(x, conds, args, ins): continue
            if rt and rt[0] in ('in', 'nin'):
                rv = ('call', ins.id, width(an.mod.fns[n].ret))
                x.facts[rv] = rt
            elif rt: rv = s.expr(x, rt, args, ins)
            else: rv = None
            new = []
            d = dict(chg)
            for g in an.vars:
                new.append((g, s.expr(x, d[g], args, ins) if g in d else st.mem.get(g, UNK)))
            x.env['__g'] = tuple(new)
            if opened and n not in an.rec: x.user = (x.user[0], x.user[1] | {'scope'})
            outs.append((x, rv))
        return outs

    applyconds = None

    def expr(s, st, e, args, ins):
        k = e[0]
        if k == 'g0': return st.mem.get(e[1], UNK)
        if k == 'a': return args[e[1]] if e[1] < len(args) else UNK
        if k == 'new':          # a fresh scope below e[1]
            t = ('call', ins.id + 'S', 64)
            st.env['__p'] = (t, s.expr(st, e[1], args, ins))
            return t
        if k == 'up':
            b = s.expr(st, e[1], args, ins)
            return st.mem.get(('f', b, 'Scope', 'parent')) or (('av', ('f', b, 'Scope', 'parent'), 64) if b[0] == 'g0' else UNK)
        return e

    def post(s, st, ins, args, rv):
        g = st.env.pop('__g', None)
        p = st.env.pop('__p', None)
        if ins.callee in s.an.fnset or g is not None:
            for x in s.an.vars:
                # killed by class; put back what the summary says is kept
                pass
        if g is None: return
        for k, v in g: st.mem[k] = v
        if p: st.mem[('f', p[0], 'Scope', 'parent')] = p[1]

    def ret(s, st, ins, val):
        an = s.an
        chg = []
        for g in an.vars:
            v = st.mem.get(g, UNK)
            if v == ('g0', g): continue
            chg.append((g, s.abst(st, v, g)))
        rt = None
        fn = s.fn
        if val is not None:
            if val[0] == 'g0' or val[0] == 'a': rt = val
            elif fn.ret == 'i1':
                vs = s.eng.vset(st, val)
                if vs is not None and len(vs) == 1: rt = ('in', frozenset(vs))
        conds = frozenset((t, f) for t, f in st.facts.items()
                          if all(BalClient.argterm(s, l) for l in (leaves(t) if t[0] == 'op' else (t,))) and (t[0] != 'op' or leaves(t)))
        an.new.append((tuple(chg), rt, conds, 'scope' in st.user[1], ins))

    def argterm(s, l): return BalClient.argterm(s, l)

    def abst(s, st, v, g):
        if v[0] in ('a', 'c', 'null', 'g0'): return v
        p = st.mem.get(('f', v, 'Scope', 'parent'))
        if p is not None and g == s.an.scope and (p[0] == 'g0'): return ('new', p)
        if v[0] in ('ld', 'av'):
            ad = v[2] if v[0] == 'ld' else v[1]
            if ad[0] == 'f' and ad[2:] == ('Scope', 'parent') and ad[1][0] == 'g0': return ('up', ad[1])
        return UNK


def subst(self, st, t, args, ins): return BalClient.subst(self, st, t, args, ins)


def applyconds(self, x, conds, args, ins):
    s = self
    for t, f in sorted(conds, key=repr):
        t2 = BalClient.subst(s, x, t, args, ins)
        if t2 is None: continue
        vs = s.eng.vset(x, t2)
        cur = x.facts.get(t2)
        if vs is not None:
            k = frozenset(v for v in vs if (v in f[1]) == (f[0] == 'in'))
            if not k: return False
            if t2[0] not in ('c', 'null'): x.facts[t2] = ('in', k)
        elif f[0] == 'in':
            k = frozenset(v for v in f[1] if not (cur and cur[0] == 'nin' and v in cur[1]))
            if not k: return False
            x.facts[t2] = ('in', k)
        elif not cur: x.facts[t2] = f
    return True


GClient.subst = subst
GClient.applyconds = applyconds


class Context:
    STRICT = ('scope', 'jump_ctx', 'eval_recover', 'is_global_init_context', 'current_fn')
    WHAT = {'scope': 'the current scope', 'jump_ctx': 'the innermost break/continue/case target',
            'eval_recover': 'the recovery flag of constant evaluation', 'is_global_init_context': 'the initializer context flag',
            'current_fn': 'the current function', 'current_defr': 'the list of pending scope-exit actions',
            'node_arena': 'the node arena', 'ast_arena': 'the tree arena'}

    def __init__(s, mod, files=('parse.c',)):
        s.mod = mod
        s.vars = []
        s.base = {}
        for n in s.STRICT + ('current_defr',):
            s.vars.append(('g', s.gname(n), 0))
        s.scope = ('g', s.gname('scope'), 0)
        s.defr = ('g', s.gname('current_defr'), 0)
        on = [f for f in mod.di.get('Arena', []) if f['name'] == 'on']
        if not on: raise Broken('struct Arena has no on flag')
        s.onoff = on[0]['off'] // 8
        s.arenas = []
        for a in ('node_arena', 'ast_arena'):
            g = ('g', s.gname(a), s.onoff)
            s.arenas.append(g); s.vars.append(g)
        s.arena = {}
        for f in mod.defs.values():
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[1], str) and isinstance(i.ops[0], list) and i.ops[0][0] == 'i':
                    g = f.by_id.get(i.ops[1])
                    if g is not None and g.op == 'getelementptr' and g.ops[0] == 'a0' and g.x['sty'].startswith('%struct') and \
                       mod.field(g.x['sty'], g.ops[2][1]) == ('Arena', 'on'): s.arena[f.name] = 1 if i.ops[0][1] else 0
        if set(s.arena.values()) != {0, 1}: raise Broken('no functions start and stop an arena')
        s.mods = Mods(mod)
        names = {v[1] for v in s.vars}
        direct = set()
        for f in mod.defs.values():
            if f.name in s.arena: continue
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g' and i.ops[1][1] in names: direct.add(f.name)
                if i.op == 'call' and i.callee in s.arena: direct.add(f.name)
        s.direct = direct
        s.fns = [n for n in mod.defs if n not in s.arena and mod.fns[n].file in files and direct & mod.reachable([n])]
        s.fnset = set(s.fns)
        s.rec = set()
        for c in mod.sccs():
            if len(c) > 1 or c[0] in mod.cg[c[0]]: s.rec |= set(c)
        s.frameonly = s.frame_only(files)
        s.sum, s.rep, s.nstores, s.npaths = {}, {}, 0, 0
        s._fresh = None

    def gname(s, n):
        for k in (n, n + '.parse'):
            if k in s.mod.globals:
                s.base[k] = n
                return k
        raise Broken('parser context variable %s not found' % n)

    def frame_only(s, files):
        """fields stored only into locals or objects created by the same function"""
        mod = s.mod
        fresh = {'malloc', 'calloc', 'realloc', 'arena_malloc', 'arena_calloc', 'ast_arena_malloc', 'ast_arena_calloc'}
        ch = True
        while ch:
            ch = False
            for f in mod.defs.values():
                if f.name in fresh or f.ret != 'ptr': continue
                rs = [i for i in f.instrs() if i.op == 'ret']
                if rs and all(s.isfresh(f, i.ops[0], fresh) for i in rs): fresh.add(f.name); ch = True
        ok, bad = set(), set()
        s.sbad = set()
        for f in mod.defs.values():
            for i in f.instrs():
                if i.op == 'call' and i.callee and i.callee.startswith('llvm.mem'):
                    j = f.by_id.get(i.ops[0]) if isinstance(i.ops[0], str) else None
                    if not (j is not None and j.op == 'alloca' or s.isfresh(f, i.ops[0], fresh)): s.sbad |= s.mods.memcls(f, i)
                if i.op != 'store' or not isinstance(i.ops[1], str): continue
                g = f.by_id.get(i.ops[1])
                if g is None or g.op != 'getelementptr' or not g.x['sty'].startswith('%struct') or len(g.ops) < 3: continue
                c = mod.field(g.x['sty'], g.ops[2][1])
                b = g.ops[0]
                j = f.by_id.get(b) if isinstance(b, str) else None
                if j is not None and j.op == 'alloca' or s.isfresh(f, b, fresh): ok.add(c)
                else: bad.add(c)
        # jumps are given their targets after the whole body has been parsed
        late = {('Node', 'defr_end')}
        s.late = late
        return frozenset((ok - bad) | late)

    def isfresh(s, f, o, fresh, seen=None):
        seen = seen or set()
        if not isinstance(o, str): return False
        if o in seen: return True
        seen.add(o)
        j = f.by_id.get(o)
        if j is None: return False
        if j.op == 'call': return j.callee in fresh
        if j.op == 'phi': return all(s.isfresh(f, p[0], fresh, seen) for p in j.ops)
        if j.op == 'select': return all(s.isfresh(f, p, fresh, seen) for p in j.ops[1:])
        return False

    def report(s, fn, ins, key, msg):
        s.rep.setdefault(fn.name, {})[(key, ins.id)] = (ins, key, msg)

    def analyse(s, n):
        fn = s.mod.fns[n]
        c = GClient(s)
        c.immutable = s.frameonly
        c.old = {}
        e = Engine(s.mod, c, s.mods, maxstates=60000)
        c.eng = e
        s.rep.pop(n, None)
        s.new = []
        e.run(fn)
        s.npaths += len(s.new)
        if not s.new: return None
        for g in s.vars:
            vals = {}
            for chg, rt, conds, op, ins in s.new:
                v = dict(chg).get(g, ('g0', g))
                if s.base[g[1]] in ('current_fn', 'current_defr') and v in (NULL, C(0)): v = ('g0', g)
                if g in s.arenas and v == C(0): v = ('g0', g)
                vals.setdefault(v, []).append((ins, op))
            same = ('g0', g)
            if g == s.defr:
                for v, l in vals.items():
                    if v == same or v[0] == 'a': continue
                    for ins, op in l:
                        if op and s.scope[1] in s.dirs(n):
                            s.report(fn, ins, 'current_defr', 'opens a scope but on a path to this return %s are not those at entry' % s.WHAT['current_defr'])
                continue
            if len(vals) == 1 and UNK not in vals: continue
            for v, l in vals.items():
                if v == same: continue
                if same not in vals and v != UNK and len(vals) == 1: continue
                for ins, op in l:
                    s.report(fn, ins, s.base[g[1]], 'on a path to this return %s is not restored' % s.WHAT[s.base[g[1]]])
        res = set()
        bad = {k[0] for k in s.rep.get(n, {})}
        for chg, rt, conds, op, ins in s.new:
            d = []
            for g, v in chg:
                if s.base[g[1]] in bad and g != s.defr: continue
                if s.base[g[1]] in ('current_fn', 'current_defr') and v in (NULL, C(0)): continue
                if g in s.arenas and v == C(0): continue
                if g == s.defr and s.base[g[1]] in bad: continue
                d.append((g, v))
            res.add((tuple(d), rt, conds, op))
        if len({x[0] for x in res}) == 1 and len({x[1] for x in res}) == 1:
            x = next(iter(res))
            return frozenset({(x[0], x[1], frozenset(), any(y[3] for y in res))})
        if n in s.rec or len(res) > 12:      # conditions on parameters matter for small helpers only
            res = {(x[0], x[1], frozenset(), x[3]) for x in res}
        return frozenset(res)

    def dirs(s, n):
        """which context variables does n handle itself or through non-recursive helpers?"""
        r = set()
        for m in [n] + [c for c in s.mod.cg[n] if c not in s.rec]:
            if m not in s.mod.defs: continue
            for i in s.mod.defs[m].instrs():
                if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g': r.add(i.ops[1][1])
            if m != n:
                for k in s.mod.cg[m]:
                    if k in s.mod.defs and k not in s.rec:
                        for i in s.mod.defs[k].instrs():
                            if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g': r.add(i.ops[1][1])
        return r

    def run(s):
        order = [x for c in s.mod.sccs() for x in c if x in s.fnset]
        deps = {}
        for n in order:
            for c in s.mod.cg[n]: deps.setdefault(c, set()).add(n)
        rank = {n: k for k, n in enumerate(order)}
        work = set(order)
        it = 0
        while work:
            n = min(work, key=lambda x: rank[x]); work.discard(n)
            it += 1
            if it > 4000: raise Broken('context fixpoint did not converge')
            r = s.analyse(n)
            if r != s.sum.get(n):
                s.sum[n] = r
                work |= {d for d in deps.get(n, ()) if d in rank}
        s.it = it
        for n in order:
            cs = s.mod.callers.get(n, ())
            if not cs or any(i.fn.name not in s.fnset for i in cs):
                for x in s.sum.get(n) or ():
                    for g, v in x[0]:
                        if g != s.defr:
                            f = s.mod.fns[n]
                            s.report(f, f.blocks[0].ins[0], s.base[g[1]], '%s is left changed by an entry point of the parser' % s.WHAT[s.base[g[1]]])
        return s
