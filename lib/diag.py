"""P14: once a diagnostic has been written, the process cannot end with status 0."""
from ir import Broken
from absint import Engine, Client, Mods, root

OUT = ('fprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'fwrite', '_IO_putc', 'dprintf', 'vdprintf', 'perror', 'write', 'psignal')
ENDS = {'exit': 0, '_exit': 0, '_Exit': 0, 'quick_exit': 0}


NORM = frozenset((None,))


def is_stderr(t):
    return t[0] == 'ld' and t[2] == ('g', 'stderr', 0) or t == ('c', 2)


class DClient(Client):
    K, KH = 6, 3

    def __init__(s, an, fn): s.an, s.fn, s.outs = an, fn, {}

    def entry(s, st, fn): st.user = (None,)

    def join_user(s, a, b): return None if a != b else a

    def call(s, st, ins, args):
        n = ins.callee
        if n in OUT and (n in ('perror', 'psignal') or any(is_stderr(a) for a in args)):
            s.an.nwrites.add((s.fn.name, ins.id))
            if st.user[0] is None: st.user = ((s.fn.name, ins.loc),)
            return None
        if n in ENDS:
            s.an.nexits.add((s.fn.name, ins.id))
            v = args[0]
            vs = s.eng.vset(st, v)
            if vs is None and v[0] == 'a':
                s.an.exit_params.add((s.fn.name, v[1]))
            elif st.user[0] and (vs is None or any(x & 255 == 0 for x in vs)):
                s.an.report(s.fn, ins, 'exit', 'ends the process with %s after the diagnostic written at %s' % (
                    'status 0' if vs is not None else 'a status that may be 0', st.user[0][1]))
            return None
        if ins.x.get('noret') and n == 'abort': return None
        outs = set()
        for c in s.mod.callees(ins): outs |= s.an.sum.get(c, NORM)
        if n in s.mod.defs:
            for (f, k) in s.an.exit_params:
                if f == n and st.user[0]:
                    vs = s.eng.vset(st, args[k])
                    if vs is None or 0 in vs: s.an.report(s.fn, ins, 'exit', 'may end the process with status 0 after the diagnostic written at %s' % st.user[0][1])
        if not any(outs): return None
        res = []
        for o in outs:
            n2 = st.copy()
            if n2.user[0] is None: n2.user = (o,)
            res.append((n2, None))
        if not outs: res = [(st, None)]
        return res

    def known_flag(s, st, g, val):
        for t, f in st.facts.items():
            l = t
            if l[0] == 'ld' and l[2] == ('g', g, 0) and f[0] == 'in' and f[1] == frozenset((val,)): return True
        return False

    def ret(s, st, ins, val):
        u = st.user[0]
        if s.fn.noret:
            s.an.report(s.fn, ins, 'returns', 'is declared not to return but can return')
            return
        if u is not None and s.fn.name != 'main' and \
           (s.known_flag(st, 'opt_werror', 0) or s.known_flag(st, 'opt_hash_hash_hash', 1)):
            u = None
        if s.fn.name == 'main':
            vs = s.eng.vset(st, val) if val else None
            if u is not None and (vs is None or any(x & 255 == 0 for x in vs)):
                s.an.report(s.fn, ins, 'main:%s' % u[0], 'main() returns success although a diagnostic was written at %s, in %s(), and nothing ended the process' % (u[1], u[0]))
            return
        s.outs[(None if u is None else u[0], )] = u


class Diag:
    def __init__(s, mod):
        s.mod = mod
        s.mods = Mods(mod)
        s.sum, s.rep = {}, {}
        s.nexits, s.nwrites, s.exit_params = set(), set(), set()
        s.nfns = 0

    def report(s, fn, ins, k, msg):
        s.rep.setdefault((fn.name, k), (ins, 'in %s(): %s' % (fn.name, msg)))

    def run(s):
        mod = s.mod
        base = {n for n in mod.fns if n in OUT or n in ENDS}
        rel = {n for n in mod.defs if any(i.callee in base and (i.callee in ENDS or s.writes(mod.defs[n], i)) for i in mod.defs[n].calls())}
        # closure: callers of functions that may return after a diagnostic
        work = set(rel)
        sums = {}
        rounds = 0
        while work:
            rounds += 1
            if rounds > 40: raise Broken('diagnostic summaries do not converge')
            nxt = set()
            for n in sorted(work):
                f = mod.defs[n]
                cl = DClient(s, f)
                eng = Engine(mod, cl, s.mods)
                cl.eng, cl.mod = eng, mod
                eng.run(f)
                s.nfns += 1
                if f.noret: s.noretcheck(f, eng)
                r = frozenset(cl.outs.values())
                # a function that always reports before returning keeps its site
                if r != s.sum.get(n, NORM):
                    s.sum[n] = r
                    for c in mod.callers.get(n, []): nxt.add(c.fn.name)
                if n in {x for x, _ in s.exit_params}:
                    for c in mod.callers.get(n, []):
                        if c.fn.name not in sums: sums[c.fn.name] = 1; nxt.add(c.fn.name)
            work = nxt
        for n, f in mod.defs.items():
            if f.noret and n not in rel:
                cl = DClient(s, f)
                eng = Engine(mod, cl, s.mods); cl.eng, cl.mod = eng, mod
                eng.run(f); s.noretcheck(f, eng); s.nfns += 1
        # exit handlers must not decide the status
        for f in mod.defs.values():
            for i in f.calls('atexit', 'on_exit', 'at_quick_exit'):
                for o in i.ops:
                    if isinstance(o, list) and o[0] == 'fn':
                        for r in mod.reachable([o[1]]):
                            if r not in mod.defs: continue
                            for e in mod.defs[r].calls(*ENDS):
                                s.report(mod.defs[r], e, 'handler', 'an exit handler ends the process itself, with a status of its own')
        return s

    def noretcheck(s, f, eng):
        for b in eng.visited:
            B = f.blocks[b]
            if B.term.op == 'unreachable':
                c = [i for i in B.ins if i.op == 'call' and i.x.get('noret')]
                if not c: s.report(f, B.term, 'falls', 'is declared not to return, but a path ends without ending the process')

    def writes(s, f, i):
        if i.callee in ('perror', 'psignal'): return True
        for o in i.ops:
            if isinstance(o, str) and o in f.by_id:
                l = f.by_id[o]
                if l.op == 'load' and isinstance(l.ops[0], list) and l.ops[0][:2] == ['g', 'stderr']: return True
            if o[:2] == ['i', 2] and i.callee in ('write', 'dprintf'): return True
        return False
