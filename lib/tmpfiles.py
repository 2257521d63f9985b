"""P17: temporary files are registered, and removed when the driver ends, however it ends by itself."""
import ir
from absint import Engine, Client, Mods, root

CREATE = {'mkstemp': 0, 'mkostemp': 0, 'mkstemps': 0, 'mkdtemp': 0, 'mktemp': 0, 'tmpnam': None, 'tempnam': None}
REMOVE = ('unlink', 'remove', 'unlinkat')
QUICK = ('_exit', '_Exit', 'quick_exit', 'abort', 'raise', 'kill', 'tgkill')
FORK = ('fork', 'vfork')


class TClient(Client):
    """user: (creations (fd, path), pushes (array, value), fork result, handler registered)"""
    K, KH = 16, 6

    def __init__(s, an, fn): s.an, s.fn = an, fn

    def entry(s, st, fn): st.user = (frozenset(), frozenset(), None, False)

    def extra_roots(s, st):
        cr, pu, fk, reg = st.user
        return [x for p in cr for x in p] + [x for p in pu for x in p] + ([fk] if fk else [])

    def call(s, st, ins, args):
        n = ins.callee
        cr, pu, fk, reg = st.user
        if n in CREATE:
            s.an.ncreate.add((s.fn.name, ins.id))
            k = CREATE[n]
            cr |= {(('call', ins.id, 32 if n != 'mkdtemp' else 64), args[k] if k is not None else ('call', ins.id, 64))}
        elif n in FORK: fk = ('call', ins.id, 32)
        elif n == 'atexit': reg = True
        elif n == 'strarray_push' and args[0][0] == 'g':
            pu |= {(args[0], args[1])}
        elif n in s.an.registrars:     # helper: pushes its parameter
            for k, g in s.an.registrars[n]: pu |= {(g, args[k])}
        elif n in QUICK or n in ('exit',):
            ch = False
            if fk:
                f = st.facts.get(fk)
                ch = bool(f and f[0] == 'in' and f[1] == frozenset((0,)))
            s.an.nends.add((s.fn.name, ins.id))
            if n in QUICK and not ch:
                s.an.report(s.fn, ins, 'quick', '%s() ends the driver without removing its temporary files' % n)
            if n == 'exit' and ch:
                vs = s.eng.vset(st, args[0])
                if vs is None or 0 in vs:
                    s.an.report(s.fn, ins, 'childexit', 'a successful child process removes the temporary files the driver still needs')
        elif n in s.mod.defs:
            if s.fn.name == 'main' and not reg and n in s.an.creating:
                s.an.report(s.fn, ins, 'late', 'temporary files may be created by %s() before their removal is registered' % n)
            if fk:
                f = st.facts.get(fk)
                if f and f[0] == 'in' and f[1] == frozenset((0,)):
                    for r in s.mod.reachable([n]):
                        if r in s.mod.defs:
                            for e in s.mod.defs[r].calls('exit'):
                                if e.ops[0][:2] == ['i', 0]:
                                    s.an.report(s.mod.defs[r], e, 'childexit', 'a successful child process ends here and removes the temporary files the driver still needs')
        st.user = (cr, pu, fk, reg)
        if n in s.an.creating and ins.x.get('noret'): pass
        return None

    def ret(s, st, ins, val):
        cr, pu, fk, reg = st.user
        for fd, path in cr:
            s.an.npaths += 1
            f = st.facts.get(fd)
            failed = f and f[0] == 'in' and f[1] <= {-1, 0} and len(f[1]) == 1 and (-1 in f[1])
            if failed:
                s.an.report(s.fn, ins, 'createfail', 'goes on although a temporary file could not be created'); continue
            if f is None or not (f[0] == 'nin' and -1 in f[1] or f[0] == 'in' and -1 not in f[1]):
                if not s.neg(st, fd):
                    s.an.report(s.fn, ins, 'unchecked', 'goes on without knowing that the temporary file was created')
            if not any(g in s.an.removed and v == path for g, v in pu):
                s.an.report(s.fn, ins, 'unregistered', 'returns with a temporary file that is not in the list of files to remove')

    def neg(s, st, fd):
        """-1 is excluded by a comparison such as fd < 0"""
        from absint import evalop, leaves
        for t, f in st.facts.items():
            if t[0] == 'op' and fd in leaves(t):
                e = evalop(t, fd, -1)
                if e is not None and (e in f[1]) != (f[0] == 'in'): return True
        return False


class HClient(Client):
    """one iteration of the removal loop: every path removes the current file"""
    def __init__(s, an, fn, loop): s.an, s.fn, s.loop, s.bad = an, fn, loop, None

    def entry(s, st, fn): st.user = (False,)

    def call(s, st, ins, args):
        if ins.callee in REMOVE: st.user = (True,)

    def edge(s, st, fn, src, dst):
        h, body = s.loop
        if dst == h:
            if src in body and not st.user[0]: s.bad = fn.blocks[src].term
            st.user = (False,)
        return True


class Tmp:
    def __init__(s):
        m = ir.load()
        h = {n for n, f in m.defs.items() if any(True for _ in f.calls(*QUICK, *FORK)) and
             not (any(True for _ in f.calls(*FORK)))}
        h |= {n for n, f in m.defs.items() if any(True for _ in f.calls(*REMOVE)) and n not in m.addr_taken}
        if h: m = ir.load(keep=[n for n in m.fns if n not in h])
        s.mod, s.mods = m, Mods(m)
        s.rep = {}
        s.ncreate, s.nends = set(), set()
        s.npaths = s.nfns = 0
        s.handlers, s.removed = [], set()
        s.undecided = 0

    def report(s, fn, ins, k, msg): s.rep.setdefault((fn.name, k), (ins, 'in %s(): %s' % (fn.name, msg)))

    def run(s):
        m = s.mod
        direct = {n for n, f in m.defs.items() if any(True for _ in f.calls(*CREATE))}
        s.creating = {n for n in m.defs if m.reachable([n]) & direct}
        for n, f in m.defs.items():
            for i in f.calls('atexit'):
                if isinstance(i.ops[0], list) and i.ops[0][0] == 'fn': s.handlers.append((i.ops[0][1], f, i))
        for h, f, i in s.handlers: s.handler(m.defs[h])
        if direct and not s.removed:
            s.report(m.fn('main'), m.fn('main').blocks[0].ins[0], 'nohandler', 'no exit handler removes the temporary files')
        # helpers that push a parameter to the list on every path
        s.registrars = {}
        for n, f in m.defs.items():
            if n == 'strarray_push': continue
            for i in f.calls('strarray_push'):
                if isinstance(i.ops[0], list) and ('g', i.ops[0][1], i.ops[0][2]) in s.removed and isinstance(i.ops[1], str) and i.ops[1][0] == 'a' \
                        and len(f.reach) == 1:
                    s.registrars.setdefault(n, []).append((int(i.ops[1][1:]), ('g', i.ops[0][1], 0)))
        for n, f in m.defs.items():
            names = {i.callee for i in f.calls()}
            if n == 'main' or n in direct or names & set(QUICK) or names & set(FORK):
                cl = TClient(s, f)
                e = Engine(m, cl, s.mods); cl.eng, cl.mod = e, m
                e.run(f); s.nfns += 1
        # the list only grows
        hr = m.reachable([h for h, _, _ in s.handlers])
        for n, f in m.defs.items():
            if n in hr: continue
            for i in f.instrs():
                if i.op == 'store' and any(('g', 'x') and c[0] == 'G' and ('g', c[1], 0) in s.removed for c in s.mods.addrcls(f, i.ops[1])) or \
                   i.op == 'store' and s.rootg(f, i.ops[1]) in s.removed:
                    s.report(f, i, 'list', 'changes the list of files to remove other than by adding to it')
        return s

    def rootg(s, f, o):
        while isinstance(o, str) and o in f.by_id and f.by_id[o].op == 'getelementptr': o = f.by_id[o].ops[0]
        return ('g', o[1], 0) if isinstance(o, list) and o[0] == 'g' else None

    def globals_read(s, f, o, depth=0):
        """globals a value is loaded through"""
        if depth > 12: return set()
        if isinstance(o, list): return {('g', o[1], 0)} if o[0] == 'g' else set()
        i = f.by_id.get(o)
        if i is None: return set()
        r = set()
        ops = [p[0] for p in i.ops] if i.op == 'phi' else i.ops
        if i.op in ('load', 'getelementptr', 'phi', 'select', 'sext', 'zext'):
            for x in (ops if i.op != 'getelementptr' else ops[:1]): r |= s.globals_read(f, x, depth + 1)
        return r

    def handler(s, f):
        m = s.mod
        rm = [i for i in f.calls(*REMOVE)]
        for i in rm:
            g = s.globals_read(f, i.ops[0] if i.callee != 'unlinkat' else i.ops[1])
            s.removed |= g
            ls = [(h, b) for h, b in f.loops.items() if i.blk.i in b]
            if not ls:
                s.report(f, i, 'noloop', 'removes one temporary file only'); continue
            h, body = min(ls, key=lambda x: len(x[1]))
            # canonical ascending loop?
            phis = [p for p in f.blocks[h].phis if p.ty.startswith('i')]
            ok = False
            for p in phis:
                ini = [v for v, b in p.ops if b not in body]
                stp = [f.by_id.get(v) if isinstance(v, str) else None for v, b in p.ops if b in body]
                if all(x is not None and x.op == 'add' and x.ops[0] == p.id and x.ops[1][0] == 'i' for x in stp) and stp:
                    steps = {x.ops[1][1] for x in stp}
                    if steps == {1} or steps != {-1}:
                        ok = True
                        if any(isinstance(x, list) and x[:2] != ['i', 0] for x in ini): s.report(f, i, 'first', 'does not start with the first temporary file')
                        if steps - {1}: s.report(f, i, 'step', 'skips temporary files')
                        # the bound
                        for x in f.blocks[h].ins:
                            if x.op == 'icmp' and x.ops[0] == p.id and isinstance(x.ops[1], list):
                                s.report(f, i, 'bound', 'removes a fixed number of temporary files')
                            if x.op == 'icmp' and x.ops[0] == p.id and isinstance(x.ops[1], str):
                                b = f.by_id.get(x.ops[1])
                                if b is not None and b.op in ('add', 'sub') and isinstance(b.ops[1], list) and x.x['pred'] in ('slt', 'ult'):
                                    s.report(f, i, 'bound', 'leaves the last temporary files')
            if not ok: s.undecided += 1
            for b in body:
                if b != h and any(t not in body for t in f.blocks[b].succ) and len(f.loops) == 1 and ok:
                    s.report(f, f.blocks[b].term, 'stop', 'may stop before all temporary files are removed')
            cl = HClient(s, f, (h, body))
            e = Engine(m, cl, s.mods); cl.eng, cl.mod = e, m
            e.run(f)
            s.nfns += 1
            if cl.bad is not None: s.report(f, cl.bad, 'skip', 'may skip a temporary file')
