"""P15: a subprocess that fails makes the driver fail; a child never continues as the driver."""
import ir
from absint import Engine, Client, Mods, evalop, leaves, root

FORK = ('fork', 'vfork')
WAIT = {'wait': 0, 'waitpid': 1, 'wait3': 0, 'wait4': 1}
EXEC = ('execvp', 'execv', 'execve', 'execl', 'execlp', 'execle', 'execvpe')
SPAWN = {'system': None, 'posix_spawn': 0, 'posix_spawnp': 0}


class PClient(Client):
    """user: (role, exec'd, wait call) ; role: None before fork, the fork result term afterwards"""
    K, KH = 16, 6

    def __init__(s, an, fn): s.an, s.fn = an, fn

    def entry(s, st, fn): st.user = (None, False, None)

    def call(s, st, ins, args):
        n = ins.callee
        role, ex, wt = st.user
        if n in FORK:
            s.an.nforks.add((s.fn.name, ins.id))
            st.user = (('call', ins.id, 32), False, None)
            return None
        if n in WAIT:
            k = WAIT[n]
            s.an.nwaits.add((s.fn.name, ins.id))
            st.user = (role, ex, (('call', ins.id, 32), args[k]))
            return None
        if n in EXEC:
            st.user = (role, True, wt)
            s.an.nexecs.add((s.fn.name, ins.id))
            if s.child(st) is not True:
                s.an.report(s.fn, ins, 'exec', 'replaces the process by another program outside of a child process')
            return None
        if n in ('exit', '_exit', '_Exit', 'quick_exit'):
            vs = s.eng.vset(st, args[0])
            if ex and (vs is None or any(v & 255 == 0 for v in vs)):
                s.an.report(s.fn, ins, 'execfail', 'a child whose program could not be started ends with success')
            return None
        return None

    def extra_roots(s, st):
        r = []
        if st.user[0] is not None: r.append(st.user[0])
        if st.user[2] is not None:
            w, buf = st.user[2]
            r += [w, buf]
            if buf in st.mem: r.append(st.mem[buf])
        return r

    def child(s, st):
        role = st.user[0]
        if role is None: return False
        f = st.facts.get(role)
        if f and f[0] == 'in' and f[1] == frozenset((0,)): return True
        if f and (f[0] == 'nin' and 0 in f[1] or f[0] == 'in' and 0 not in f[1]): return False
        return None

    def ret(s, st, ins, val):
        role, ex, wt = st.user
        if role is None: return
        ch = s.child(st)
        if ch is not False:
            s.an.report(s.fn, ins, 'child', 'the child process can return from here and go on as a second driver')
            return
        s.an.npaths += 1
        if wt is None:
            s.an.report(s.fn, ins, 'nowait', 'the driver goes on without waiting for the child process')
            return
        w, buf = wt
        if s.eng.vset(st, w) is None or -1 in s.eng.vset(st, w):
            n = st.copy()
            if s.feasible(n, w, -1):
                s.an.report(s.fn, ins, 'waitfail', 'the driver goes on although waiting for the child process may have failed')
        if buf == ('null',):
            s.an.report(s.fn, ins, 'nostatus', 'the status of the child process is discarded'); return
        v = st.mem.get(buf)
        if v is None:
            s.an.report(s.fn, ins, 'nostatus', 'the driver goes on without having looked at the status of the child process'); return
        bad = [x for x in STATUSES if s.feasible(st, v, x)]
        s.an.nstat += len(STATUSES)
        if bad:
            x = bad[0]
            what = 'it was killed by signal %d' % (x & 127) if x & 127 else 'it exited with status %d' % (x >> 8)
            s.an.report(s.fn, ins, 'status', 'the driver goes on as if the child process had succeeded when %s' % what)

    def feasible(s, st, leaf, x):
        """may leaf have the value x on this path?"""
        for t, f in st.facts.items():
            if t == leaf or (t[0] == 'op' and leaf in leaves(t)):
                e = evalop(t, leaf, x)
                if e is None: continue
                if (e in f[1]) != (f[0] == 'in'): return False
        return True


STATUSES = [c << 8 for c in range(1, 256)] + [s for s in range(1, 65)] + [s | 128 for s in range(1, 65)]


def helpers(m):
    """functions holding only a part of the protocol are looked at inside their callers"""
    r = set()
    for n, f in m.defs.items():
        has = [any(True for _ in f.calls(*g)) for g in (FORK, WAIT, EXEC)]
        if any(has) and not (has[0] and has[1]): r.add(n)
    return r


class Procs:
    def __init__(s):
        m = ir.load()
        h = helpers(m)
        if h: m = ir.load(keep=[n for n in m.fns if n not in h])
        s.mod, s.mods = m, Mods(m)
        s.rep = {}
        s.nforks, s.nwaits, s.nexecs = set(), set(), set()
        s.npaths = s.nstat = s.nfns = 0

    def report(s, fn, ins, k, msg): s.rep.setdefault((fn.name, k), (ins, 'in %s(): %s' % (fn.name, msg)))

    def run(s):
        for n, f in s.mod.defs.items():
            for i in f.calls(*SPAWN):
                s.report(f, i, 'spawn', 'starts a program by %s(), whose outcome this analysis does not follow' % i.callee)
            if not any(True for _ in f.calls(*FORK, *WAIT, *EXEC)): continue
            cl = PClient(s, f)
            e = Engine(s.mod, cl, s.mods); cl.eng, cl.mod = e, s.mod
            e.run(f)
            s.nfns += 1
        return s
