"""End-of-list discipline for token lists: how far can each token pointer be
followed?  depth(p) = number of tokens known to exist from p on (0: p may be
NULL).  A token that is not the end marker has a successor."""
from ir import Broken
from absint import *

LIT_PRIMS = {'equal': (0, 1), 'equal_ext': (0, 1)}


class Summary:
    __slots__ = ('ret', 'arg', 'out', 'alias')
    # each keyed by outcome 'T'/'F'/'V'

    def __init__(s):
        s.ret = {}; s.arg = {}; s.out = {}; s.alias = {}

    def key(s):
        return repr((sorted(s.ret.items()), sorted(s.arg.items()), sorted(s.out.items()), sorted(s.alias.items())))


class TokClient(Client):
    use_depth = True
    noalias_args = True
    K = 10
    KH = 3

    def __init__(s, an):
        s.an = an

    def leaf_depth(s, st, t):
        k = t[0]
        if k == 'a':
            return s.an.req[s.fn.name].get(t[1], 0)
        if k in ('ld', 'av'):
            a = t[2] if k == 'ld' else t[1]
            if a[0] == 'f' and a[2] == 'Token' and a[3] == 'next':
                if root(a)[0] == 'al': return 1
                b = a[1]
                d = s.eng.depth(st, b)
                return d - 1
            if s.an.is_tokfield(a): return s.an.fdepth.get((a[2], a[3]), 1)
            if a[0] == 'g': return 1
            if a[0] == 'a': return 2
            if a[0] == 'x': return 1
            return 0
        if k == 'al':
            n = st.mem.get(('f', t, 'Token', 'next'))
            return 1 if n is None else 1 + s.eng.depth(st, n)
        if k in ('g', 'f', 'x'):
            return 1
        if k == 'op' and t[1] == 'select':
            return min(s.eng.depth(st, t[4]), s.eng.depth(st, t[5]))
        return 0

    def entry(s, st, fn):
        s.fn = fn
        for k, a in enumerate(fn.args):
            pass

    def istokterm(s, st, t):
        k = t[0]
        if k == 'a': return s.an.istok(s.fn, t[1])
        if k == 'ld':
            return t[2][0] == 'f' and s.an.is_tokfield(t[2])
        return s.eng.depth(st, t) >= 1

    # chain from an argument: (argno, nexts)
    def chain(s, t):
        n = 0
        while t[0] == 'ld' and t[2][0] == 'f' and t[2][2] == 'Token' and t[2][3] == 'next':
            t = t[2][1]; n += 1
        return t, n

    def need(s, st, ins, t, k, what):
        """t must have depth >= k"""
        if k <= 0: return
        s.an.nobl += 1
        have = s.eng.depth(st, t)
        if have >= k: return
        r, n = s.chain(t)
        if r[0] == 'a':
            if s.an.raise_req(s.fn, r[1], n + k): return
        if t == NULL and s.an.nullok: pass
        s.an.report(s.fn, ins, t, k, have, what)
        st.d[t] = k       # report once per path

    def load(s, st, ins, addr, val):
        if addr[0] == 'f' and addr[2] == 'Token':
            s.need(st, ins, addr[1], 1, 'read of token field %s' % addr[3])

    def store(s, st, ins, addr, val):
        if addr[0] == 'f' and addr[2] == 'Token':
            s.need(st, ins, addr[1], 1, 'write of token field %s' % addr[3])
            if (addr[2], addr[3]) in s.an.fdepth and (addr[2], addr[3]) != ('Node', 'tok') and val != NULL:
                s.need(st, ins, val, s.an.fdepth[(addr[2], addr[3])], 'value kept in %s.%s' % (addr[2], addr[3]))
            if addr[3] == 'next':
                b = addr[1]
                nd = 1 + s.eng.depth(st, val)
                if st.d.get(b, 0) > nd: st.d[b] = nd

    def implied(s, st, x):
        """facts about x just refined; derive non-EOF"""
        if x[0] == 'op' and x[1] == 'and' and x[4] == C(65535) and x[3][0] == 'ld':
            a = x[3][2]
            if a[0] == 'f' and a[2] == 'Token' and a[3].startswith('bits@'):
                f = st.facts.get(x)
                if f and ((f[0] == 'in' and s.an.EOF not in f[1]) or (f[0] == 'nin' and s.an.EOF in f[1])):
                    s.up(st, a[1], 2)

    def up(s, st, t, k):
        n = 0
        while n < 4:
            if s.eng.depth(st, t) < k:
                st.d[t] = k
            # t was read from b->next and that link is unchanged: b reaches one further
            if t[0] == 'ld' and t[2][0] == 'f' and t[2][2] == 'Token' and t[2][3] == 'next' \
               and st.mem.get(t[2]) == t and k < DEPTH_CAP:
                t, k, n = t[2][1], k + 1, n + 1
            else: break

    def bitof(s, t):
        """(token, bit) when t is one bit of a token's flag word"""
        sh, one = 0, t[0] == 'op' and t[1] == 'trunc' and t[2] == 1
        while t[0] == 'op':
            if t[1] in ('trunc', 'zext'): t = t[3]
            elif t[1] == 'lshr' and t[4][0] == 'c': sh += t[4][1]; t = t[3]
            elif t[1] == 'and' and t[4] == C(1): one = True; t = t[3]
            else: return None
        if one and t[0] == 'ld' and t[2][0] == 'f' and t[2][2] == 'Token' and t[2][3].startswith('bits@'):
            return t[2][1], int(t[2][3][5:]) + sh
        return None

    def assume(s, st, c, truth):
        if c[0] == 'cq':
            # call outcome known
            _, iid, name, args, w = c
            if name in LIT_PRIMS:
                if truth: s.up(st, args[0], 2)
            elif name in ('strncmp', 'strcmp'):
                pass
            return True
        s.implied(st, c)
        # the end marker is always first on its line
        b = s.bitof(c)
        if b and b[1] == s.an.bol and not truth: s.up(st, b[0], 2)
        if c[0] == 'op' and c[1].startswith('icmp '):
            x = c[3]
            s.implied(st, x)
            b = s.bitof(x)
            if b and b[1] == s.an.bol and c[4] == C(0) and c[1] in ('icmp eq', 'icmp ne') and \
               (c[1] == 'icmp eq') == truth: s.up(st, b[0], 2)
            # a walk bounded by a later element of the same list
            if c[1] in ('icmp eq', 'icmp ne') and (c[1] == 'icmp ne') == truth and c[4] != NULL and \
               s.istokterm(st, x) and s.istokterm(st, c[4]):
                for q in (x, c[4]): 
                    if s.eng.depth(st, q) >= 1 or q in s.an.walk: s.up(st, q, 2)
            elif c[1] in ('icmp eq', 'icmp ne') and c[4] != NULL and c[4][0] != 'c':
                m = max(s.eng.depth(st, x), s.eng.depth(st, c[4]))
                if m: s.up(st, x, m); s.up(st, c[4], m)
            if x[0] == 'cq' and x[2] in ('strncmp', 'strcmp') and c[4] == C(0):
                if (c[1] == 'icmp eq') == truth:
                    for t in x[3]:
                        if t[0] == 'ld' and t[2][0] == 'f' and t[2][2] == 'Token' and t[2][3] == 'loc':
                            s.up(st, t[2][1], 2)
            if c[4] == NULL:
                if (c[1] == 'icmp ne') == truth:
                    s.up(st, x, max(1, st.d.get(('nn', x), 0)))
        return True

    def call(s, st, ins, args):
        name = ins.callee
        an = s.an
        if name in LIT_PRIMS:
            s.need(st, ins, args[0], 1, 'argument of %s()' % name)
            if an.nonempty(s.fn, ins, args[1]):
                return [(st, ('cq', ins.id, name, tuple(args), 1))]
            return None
        if name in ('strncmp', 'strcmp', 'memcmp'):
            for a, o in zip(args, ins.ops):
                b = s.eng.mod.cstr(o)
                if b or a[0] == 'ld' and a[2][0] == 'f' and a[2][2:] == ('Token', 'loc'):
                    return [(st, ('cq', ins.id, name, tuple(args), 32))]
            return None
        if name == 'hashmap_get2':     # no table has an empty key
            n = st.copy()
            rv = ('call', ins.id, 64)
            n.facts[rv] = ('nin', frozenset((0,)))
            a = args[1]
            if a[0] == 'ld' and a[2][0] == 'f' and a[2][2:] == ('Token', 'loc'): s.up(n, a[2][1], 2)
            return [(n, rv), (st, NULL)]
        if name in ('malloc', 'calloc', 'realloc', 'arena_malloc', 'arena_calloc'):
            rv = ('call', ins.id, 64)
            st.d[rv] = 1
            return [(st, rv)]
        outs = None
        for c in s.eng.mod.callees(ins):
            if c not in an.mod.defs: continue
            f = an.mod.fns[c]
            for k, r in an.req[c].items():
                if r and k < len(args):
                    s.need(st, ins, args[k], r, 'argument %d of %s()' % (k + 1, c))
        if name is None:
            cs = [c for c in s.eng.mod.callees(ins) if c in an.fnset]
            if cs and all(an.mod.fns[c].ret == 'ptr' for c in cs):
                ds = [min(an.sum[c].ret.values()) for c in cs if c in an.sum and an.sum[c].ret]
                if not ds: return []
                rv = ('call', ins.id, 64)
                if min(ds): st.d[rv] = min(ds)
                return [(st, rv)]
            return None
        if name in an.mod.defs:
            sm = an.sum.get(name)
            if sm is None: return [] if name in an.fnset else None
            if not sm.ret: return []          # never returns (or not yet known to)
            f = an.mod.fns[name]
            outs = []
            for oc in sm.ret:
                n = st.copy()
                w = width(f.ret) if f.ret != 'void' else 64
                rv = ('call', ins.id, w)
                if oc == 'T': n.facts[rv] = ('nin', frozenset((0,))) if w != 1 else ('in', frozenset((-1,)))
                elif oc == 'F': n.facts[rv] = ('in', frozenset((0,)))
                if oc == 'F' and f.ret == 'ptr': rv = NULL
                elif f.ret == 'ptr' and sm.alias.get(oc) is not None and sm.alias[oc] < len(args):
                    rv = args[sm.alias[oc]]
                for k, dd in sm.arg.get(oc, {}).items():
                    if k < len(args) and dd: s.up(n, args[k], dd)
                if sm.ret[oc] and f.ret == 'ptr': s.up(n, rv, sm.ret[oc])
                outs.append((n, rv, oc))
            s.pend = (ins, args, sm)
            res = []
            for n, rv, oc in outs:
                res.append((n, rv))
                # remember old out values
                n.env['__oc'] = ('oc', oc)
                for k in sm.out.get(oc, {}):
                    if k < len(args):
                        old = n.mem.get(args[k])
                        n.env['__old%d' % k] = ('od', s.eng.depth(n, old) if old else (1 if args[k][0] in ('a',) else 0),
                                                s.eng.nndepth(n, old) if old else 2 if args[k][0] == 'a' else 0)
                        if sm.out[oc][k] and sm.out[oc][k][1] and old is not None:
                            n.env['__ov%d' % k] = old
            return res
        return None

    def post(s, st, ins, args, rv):
        name = ins.callee
        if '__oc' not in st.env: return
        oc = st.env.pop('__oc')[1]
        sm = s.an.sum[name]
        for k, v in sm.out.get(oc, {}).items():
            if k >= len(args): continue
            _, old, nn = st.env.pop('__old%d' % k, ('od', 0, 0))
            ov = st.env.pop('__ov%d' % k, None)
            dd, maykeep, vn = v
            if dd is None:       # never written on this outcome
                if ov is not None: st.mem[args[k]] = ov
                continue
            nt = ('out', ins.id, k, 64)
            if maykeep and not s.eng.maybe_init(args[k]): maykeep = False   # a slot the caller left unset
            d = min(dd, old) if maykeep else dd
            st.mem[args[k]] = nt
            if d > 0: st.d[nt] = d
            nn = min(vn, nn) if maykeep else vn
            if nn > d: st.d[('nn', nt)] = nn

    def ret(s, st, ins, val):
        an = s.an
        fn = s.fn
        ocs = []
        if val is None:
            ocs = [('V', st)]
        else:
            vs = s.eng.vset(st, val)
            if fn.ret == 'ptr':
                f = st.facts.get(val)
                if val == NULL: ocs = [('F', st)]
                elif s.eng.depth(st, val) >= 1 or (f and f[0] == 'nin' and 0 in f[1]): ocs = [('T', st)]
                else: ocs = [('V', st)]
            elif fn.ret == 'i1':
                for truth, oc in ((True, 'T'), (False, 'F')):
                    n = st.copy()
                    if s.eng.assume(n, val, truth): ocs.append((oc, n))
            elif vs is not None and 0 not in vs: ocs = [('T', st)]
            else: ocs = [('V', st)]
        sm = an.new
        for oc, n in ocs:
            d = s.eng.depth(n, val) if (val is not None and fn.ret == 'ptr') else 0
            if oc == 'F' and fn.ret == 'ptr': d = 0
            al = val[1] if val is not None and val[0] == 'a' else None
            if oc in sm.ret and sm.alias.get(oc) != al: al = None
            sm.alias[oc] = al
            sm.ret[oc] = min(sm.ret.get(oc, DEPTH_CAP), d)
            A = sm.arg.get(oc)
            cur = {}
            for k in range(len(fn.args)):
                if an.istok(fn, k): cur[k] = s.eng.depth(n, ('a', k))
            if A is None: sm.arg[oc] = cur
            else:
                for k in A: A[k] = min(A[k], cur.get(k, 0))
            O = sm.out.setdefault(oc, {})
            for k in range(len(fn.args)):
                if an.isout(fn, k):
                    nf = n.facts.get(('a', k))
                    if nf and nf[0] == 'in' and nf[1] == {0}: continue   # no place was passed
                    v = n.mem.get(('a', k))
                    w = n.mem.get(('wr', k))
                    p = O.get(k)
                    if v is None or (v[0] == 'ld' and v[2] == ('a', k)):
                        c = (None, True, None)
                    else:
                        c = (s.eng.depth(n, v), False, s.eng.nndepth(n, v))
                    if p is None: O[k] = c
                    else:
                        dd = c[0] if p[0] is None else p[0] if c[0] is None else min(p[0], c[0])
                        O[k] = (dd, p[1] or c[1], p[2] if c[2] is None else c[2] if p[2] is None else min(p[2], c[2]))


# matches list positions against text positions instead of end markers
EXEMPT = ('add_line_numbers',)


class TokAnalysis:
    nullok = False
    MAXREQ = 4

    def __init__(s, mod, files=('tokenize.c', 'preprocess.c', 'parse.c', 'type.c', 'main.c')):
        s.mod = mod
        s.EOF = mod.E('TK_EOF')
        s.mods = Mods(mod)
        s.req = {n: {} for n in mod.fns}
        for n, f in mod.defs.items():
            nul = set()
            for i in f.instrs():
                if i.op == 'icmp' and ['null'] in i.ops:
                    for o in i.ops:
                        if isinstance(o, str):
                            nul.add(o)
                            j = f.by_id.get(o)
                            if j is not None and j.op == 'phi' and all(p[0] != ['null'] for p in j.ops): nul |= {p[0] for p in j.ops if isinstance(p[0], str)}
            for k, ty in enumerate(f.argty):
                a = 'a%d' % k
                used = False
                w, sn = [a], {a}
                while w:
                    for i in f.users.get(w.pop(), ()):
                        if i.op in ('getelementptr', 'load', 'call', 'store'): used = True
                        elif i.op in ('phi', 'select') and i.id not in sn: sn.add(i.id); w.append(i.id)
                if ty == 'Token*' and used and a not in nul and f.file in files:
                    s.req[n][k] = 1
        s.sum = {}
        s.rep = {}
        s.nobl = 0
        s.optim = True
        s.tokfields = set()
        s.walk = ()
        s.spec = set()
        s.fdepth = {('CondIncl', 'tok'): 2, ('Node', 'tok'): 2}
        b = [f for f in mod.di.get('Token', []) if f['name'] == 'at_bol']
        if not b: raise Broken('struct Token has no at_bol flag')
        s.bol = b[0]['off']
        for st, fs in mod.di.items():
            for f in fs:
                if f['ty'] == 'Token*': s.tokfields.add((st, f['name']))
        s.files = files
        ex = set(EXEMPT)
        while True:      # helpers used by exempt functions only
            more = {n for n in mod.defs if n not in ex and mod.callers.get(n) and mod.fns[n].file == 'tokenize.c' and
                    all(i.fn.name in ex for i in mod.callers[n]) and n not in mod.addr_taken}
            if not more: break
            ex |= more
        s.exempt = ex
        files = [n for n in mod.defs if mod.fns[n].file in files and n not in ex and s.relevant(mod.fns[n])]
        s.fns = files
        s.fnset = set(s.fns)
        s._ne = {}

    def relevant(s, f):
        def tk(g): return any(t in ('Token*', 'Token**') for t in g.ditys)
        if tk(f): return True
        for i in f.instrs():
            if i.op == 'getelementptr' and i.x['sty'] == '%struct.Token': return True
            if i.op == 'call' and any(tk(s.mod.fns[c]) for c in s.mod.callees(i) if c in s.mod.fns): return True
        return False

    def is_tokfield(s, a):
        return a[0] == 'f' and (a[2], a[3]) in s.tokfields

    def istok(s, fn, k):
        return k < len(fn.argty) and fn.argty[k] == 'Token*'

    def isout(s, fn, k):
        return k < len(fn.argty) and fn.argty[k] == 'Token**'

    def nonempty(s, fn, ins, arg):
        """is this string argument a non-empty literal (possibly via a
        parameter that every caller fills with one)?"""
        b = None
        if arg[0] == 'g':
            b = s.mod.cstr(['g', arg[1], arg[2]])
            return bool(b)
        if arg[0] == 'a': return s.param_nonempty(fn.name, arg[1])
        if arg[0] == 'ld' and arg[2][0] in ('x', 'g'):   # element of a constant table of strings
            r = root(arg[2])
            return r[0] == 'g' and s.table_nonempty(r[1])
        if arg[0] == 'op' and arg[1] == 'select':
            return s.nonempty(fn, ins, arg[4]) and s.nonempty(fn, ins, arg[5])
        return False

    def table_nonempty(s, g):
        i = s.mod.globals.get(g, {}).get('init')
        if not i or i[0] != 'arr': return False
        return all(isinstance(e, list) and s.mod.cstr(e) for e in i[1])

    def param_nonempty(s, name, k):
        key = (name, k)
        if key in s._ne: return s._ne[key]
        s._ne[key] = True
        ok = True
        sites = s.mod.callers.get(name, [])
        if not sites: ok = False
        for i in sites:
            o = i.ops[k] if k < len(i.ops) else None
            if isinstance(o, list):
                if not s.mod.cstr(o): ok = False
            elif isinstance(o, str) and o[0] == 'a':
                if not s.param_nonempty(i.fn.name, int(o[1:])): ok = False
            else: ok = False
        s._ne[key] = ok
        return ok

    def raise_req(s, fn, k, n):
        if n > s.MAXREQ: return False
        if not s.mod.callers.get(fn.name): return False
        cur = s.req[fn.name].get(k, 0)
        if n > cur:
            s.req[fn.name][k] = n
            s.changed.add(fn.name)
        return True

    def report(s, fn, ins, t, k, have, what):
        s.rep.setdefault(fn.name, {})[(ins.id, what)] = (ins, t, k, have, what)

    def analyse(s, name):
        r = s.analyse1(name)
        if s.rep.get(name) and name not in s.spec and s.mod.callers.get(name):
            s.spec.add(name)
            fn = s.mod.fns[name]
            for k in range(len(fn.args)):
                if s.istok(fn, k) and s.req[name].get(k, 0) <= 2:
                    n = len(s.rep.get(name, ()))
                    if not n: break
                    keep = dict(s.req[name])
                    s.req[name][k] = s.req[name].get(k, 0) + 1
                    r2 = s.analyse1(name)
                    if len(s.rep.get(name, ())) < n:
                        r = r2; s.changed.add(name)
                    else:
                        s.req[name] = keep
                        r = s.analyse1(name)
        return r

    def analyse1(s, name):
        fn = s.mod.fns[name]
        for _ in range(10):
            c = TokClient(s)
            c.immutable = s.mods.initonly
            e = Engine(s.mod, c, s.mods)
            c.eng = e
            s.rep.pop(name, None)
            s.new = Summary()
            before = dict(s.req[name])
            s.obl_before = s.nobl
            e.run(fn)
            if s.req[name] == before: break
        return s.new

    def run(s):
        for n in s.mod.fns: pass
        order = [c for c in s.mod.sccs()]
        todo = [n for c in order for n in c if n in set(s.fns)]
        deps = {}
        for n in todo:
            for c in s.mod.cg[n]: deps.setdefault(c, set()).add(n)
        rank = {n: k for k, n in enumerate(todo)}
        work = set(todo)
        it = 0
        s.count = {}
        while work:
            n = min(work, key=lambda x: rank[x])
            work.discard(n)
            it += 1
            if it > 6000: raise Broken('token-depth fixpoint did not converge')
            s.changed = set()
            old = s.sum.get(n)
            b = s.nobl
            sm = s.analyse(n)
            s.count[n] = s.nobl - b
            if old is None or old.key() != sm.key():
                s.sum[n] = sm
                work |= {d for d in deps.get(n, ()) if d in rank}
                if n in s.mod.cg[n]: work.add(n)
            else:
                s.sum[n] = sm
            if s.changed:
                work |= {d for d in deps.get(n, ()) if d in rank}
        s.iterations = it
        return s
