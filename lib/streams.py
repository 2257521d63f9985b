"""P16: an output stream is opened, checked for errors and closed (or flushed), each with its outcome looked at."""
import ir
from absint import Engine, Client, Mods, leaves, evalop, subterms

FINISH = {'fclose': 0, 'fflush': 0}
FERR = {'ferror': 0, 'ferror_unlocked': 0}
WRITE = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'puts': None, 'printf': None, 'putchar': None, 'vprintf': None}
ENDS = ('exit', '_exit', '_Exit', 'quick_exit')


def nz(t, leaf, pol):
    """value of t when leaf is nonzero and everything else is unknown: int, 'nz' or None"""
    if t == leaf: return pol
    if t[0] == 'c': return t[1]
    if t[0] == 'null': return 0
    if t[0] != 'op': return None
    op = t[1]
    a = nz(t[3], leaf, pol)
    if isinstance(a, int) and op in ('zext', 'sext', 'trunc'): return evalop(t[:3] + (('c', a),) + t[4:], None, None)
    if op in ('zext', 'sext', 'freeze'): return a
    if op == 'trunc':
        if a == 'nz' and t[3] != leaf and boolish(t[3]): return 'nz'
        return a if isinstance(a, int) else None
    b = nz(t[4], leaf, pol)
    if isinstance(a, int) and isinstance(b, int) and op != 'select':
        return evalop(('op', op, t[2], ('c', a), ('c', b)), None, None)
    if op in ('icmp ne', 'icmp eq'):
        r = None
        if a == 'nz' and b == 0 or a == 0 and b == 'nz': r = True
        elif isinstance(a, int) and isinstance(b, int): r = a != b
        if r is None: return None
        return -1 if r == (op == 'icmp ne') else 0
    if op == 'or':
        if a == 'nz' or b == 'nz' or (isinstance(a, int) and a) or (isinstance(b, int) and b): return 'nz'
        return 0 if a == 0 and b == 0 else None
    if op == 'and':
        if a == 0 or b == 0: return 0
        return None
    if op == 'xor' and t[2] == 1 and t[4] == ('c', -1):
        return 0 if a == 'nz' or (isinstance(a, int) and a) else -1 if a == 0 else None
    if op == 'select':
        c = nz(t[5], leaf, pol)
        if a == 'nz' or isinstance(a, int) and a: return b
        if a == 0: return c
        return b if b == c else None
    return None


def boolish(t):
    if t[0] == 'op':
        if t[1].startswith('icmp'): return True
        if t[1] in ('zext', 'sext', 'trunc'): return boolish(t[3]) or t[1] == 'zext' and t[4] == 1
        if t[1] in ('or', 'and', 'xor'): return boolish(t[3]) and (boolish(t[4]) or t[4][0] == 'c' and t[4][1] in (0, 1, -1))
    return t[0] == 'c' and t[1] in (0, 1, -1)


class SClient(Client):
    """user: frozenset of (stream, ferror-result or None, finish-result or None, used)"""
    K, KH = 24, 10

    def __init__(s, an, fn): s.an, s.fn, s.closed = an, fn, {}

    def entry(s, st, fn):
        st.user = frozenset((('a', k), None, None) for k, t in enumerate(fn.argty) if 'FILE' in t and fn.name != 'main')

    def extra_roots(s, st):
        return [x for e in st.user for x in e if isinstance(x, tuple)]

    def load(s, st, ins, addr, val):
        if addr == ('g', 'stdout', 0): return ('g', '@stdout', 0)
        if addr == ('g', 'stderr', 0): return ('g', '@stderr', 0)
        return None

    def zero(s, st, t):
        """is t known to be 0 on this path?"""
        if t is None: return False
        pol = -1 if s.fn.by_id[t[1]].callee in FINISH else 'nz'
        for f, v in st.facts.items():
            if f == t:
                if v == ('in', frozenset((0,))): return True
            elif f[0] == 'op':
                e = nz(f, t, pol)
                if e is None: continue
                if v[0] == 'in' and (0 not in v[1] if e == 0 else e not in v[1] if e != 'nz' else v[1] == frozenset((0,))): return True
                if v[0] == 'nin' and e != 'nz' and e in v[1]: return True
        if t in st.facts and pol == -1 and (-1 not in st.facts[t][1]) == (st.facts[t][0] == 'in'): return True
        return False

    def nonnull(s, st, t):
        if t[0] == 'g': return True
        f = st.facts.get(t)
        return bool(f and (f[0] == 'nin' and 0 in f[1] or f[0] == 'in' and 0 not in f[1]))

    def call(s, st, ins, args):
        n = ins.callee
        if n == 'fopen' or n == 'fdopen' or n == 'freopen':
            mode = s.mod.cstr(ins.ops[1])
            if mode is None or any(c in mode for c in b'wa+'):
                s.an.nopen.add((s.fn.name, ins.id))
                st.user |= {(('call', ins.id, 64), None, None)}
            return None
        if n in s.an.openers:
            st.user |= {(('call', ins.id, 64), None, None)}
            st.facts[('call', ins.id, 64)] = ('nin', frozenset((0,)))
            return [(st, ('call', ins.id, 64))]
        u = {e[0]: e for e in st.user}
        for k, a in enumerate(args):
            if a == ('g', '@stdout', 0) and a not in u and n not in FERR and n not in FINISH:
                u[a] = (a, None, None)
            if a in u and a[0] not in ('a', 'g') and not s.nonnull(st, a):
                s.an.report(s.fn, ins, 'unopened', 'uses an output stream whose opening may have failed')
            if a in u and u[a][2] is not None and n not in FERR and n not in FINISH:
                if a[0] == 'g': u[a] = (a, None, None)
                else: s.an.report(s.fn, ins, 'closed', 'uses an output stream after it was closed')
            if a in u:
                e = u[a]
                if n in FERR: u[a] = (a, ('call', ins.id, 32), e[2]); s.an.nchk.add((s.fn.name, ins.id))
                elif n == 'fclose' or n == 'fflush':
                    u[a] = (a, e[1], ('call', ins.id, 32)); s.an.nchk.add((s.fn.name, ins.id))
                    if e[2] is not None and n == 'fclose': s.an.report(s.fn, ins, 'twice', 'closes an output stream twice')
                elif (n, k) in s.an.closers:
                    u[a] = (a, ('c', 0), ('c', 0))
                elif e[1] is not None and e[2] is None:
                    u[a] = (a, None, None)     # written to after the error check
        if n in ('printf', 'puts', 'putchar') and s.fn.name not in ('hashmap_test',):
            a = ('g', '@stdout', 0)
            u[a] = (a, None, None)
        st.user = frozenset(u.values())
        if n in ENDS:
            vs = s.eng.vset(st, args[0])
            if vs is None or any(v & 255 == 0 for v in vs):
                for e in st.user:
                    if e[0][0] != 'a': s.final(st, ins, e, 'the process can end with status 0')
        return None

    def ok(s, st, e):
        return (e[1] == ('c', 0) or s.zero(st, e[1])) and (e[2] == ('c', 0) or s.zero(st, e[2]))

    def final(s, st, ins, e, what):
        t, fe, fin = e
        nm = 'standard output' if t[0] == 'g' else 'an output file'
        f = st.facts.get(t)
        if f and f == ('in', frozenset((0,))):
            s.an.report(s.fn, ins, 'openfail', '%s although an output file could not be opened' % what); return
        if fin is None: s.an.report(s.fn, ins, 'unfinished', '%s although %s was not closed or flushed' % (what, nm))
        elif not (fin == ('c', 0) or s.zero(st, fin)): s.an.report(s.fn, ins, 'finishfail', '%s although closing or flushing %s may have failed' % (what, nm))
        elif fe is None: s.an.report(s.fn, ins, 'nocheck', '%s although earlier writes to %s may have failed' % (what, nm))
        elif not (fe == ('c', 0) or s.zero(st, fe)): s.an.report(s.fn, ins, 'writefail', '%s although earlier writes to %s may have failed' % (what, nm))

    def ret(s, st, ins, val):
        for e in st.user:
            t = e[0]
            if t[0] == 'a':
                s.closed.setdefault(t[1], set()).add(e[2] is not None and s.ok(st, e))
                if e[2] is not None and not s.ok(st, e):
                    s.an.pending.append((s.fn, ins, t[1]))
            elif val == t:
                if not s.nonnull(st, t): s.an.report(s.fn, ins, 'openfail', 'returns an output stream whose opening may have failed')
                s.an.isopener.add(s.fn.name)
            else:
                s.an.npaths += 1
                s.final(st, ins, e, '%s() returns' % s.fn.name)
        if val == ('g', '@stdout', 0): s.an.isopener.add(s.fn.name)


class Streams:
    def __init__(s):
        m = ir.load()
        h = {n for n, f in m.defs.items() if any(True for _ in f.calls('fopen', 'fclose', 'fflush', 'ferror', 'fdopen', 'ferror_unlocked'))}
        if h: m = ir.load(keep=[n for n in m.fns if n not in h])
        s.mod, s.mods = m, Mods(m)
        s.rep = {}
        s.nopen, s.nchk, s.openers, s.closers, s.isopener = set(), set(), set(), set(), set()
        s.npaths = s.nfns = 0
        s.pending = []

    def report(s, fn, ins, k, msg): s.rep.setdefault((fn.name, k), (ins, 'in %s(): %s' % (fn.name, msg)))

    def run(s):
        m = s.mod
        for comp in m.sccs():
            for n in comp:
                f = m.defs[n]
                names = {i.callee for i in f.calls()}
                lo = any(i.op == 'load' and isinstance(i.ops[0], list) and i.ops[0][:2] == ['g', 'stdout'] for i in f.instrs())
                if not (lo or names & {'fopen', 'fclose', 'fflush', 'fdopen', 'freopen', 'printf', 'puts', 'putchar'} or names & s.openers
                        or any((c, k) in s.closers for c in names for k in range(4))): continue
                if names & {'open_memstream'} and not names & {'fopen'} and not lo: continue
                if n == 'hashmap_test': continue
                cl = SClient(s, f)
                e = Engine(m, cl, s.mods); cl.eng, cl.mod = e, m
                e.run(f)
                s.nfns += 1
                if n in s.isopener: s.openers.add(n)
                for k, v in cl.closed.items():
                    if v == {True}: s.closers.add((n, k))
        return s
