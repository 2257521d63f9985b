"""P04: the result of a lookup that can fail is tested before it is used."""
import ir, re
import fmts
from absint import Engine, Client, Mods, NULL, C, root, cls

# parts of the program representation that can be absent
OPT = {'VarScope': 'var type_def enum_ty', 'EvalContext': 'var', 'Member': 'name next', 'Node': 'init inc asm_outputs asm_inputs asm_labels cases default_case',
       'Obj': 'asm_name asm_str init_data section_name visibility rel next param_next param_promoted', 'Token': 'origin attr_next',
       'Type': 'origin decl_next param_list', 'DeferStmt': 'vla', 'Relocation': 'next', 'Scope': 'children sibling_next', 'CaseRange': 'next',
       'AsmParam': 'var next', 'JumpContext': 'next'}
OPT = {(k, f) for k, v in OPT.items() for f in v.split()}

EXTNULL = {'fopen', 'strchr', 'strrchr', 'strstr', 'getenv', 'memchr', 'strtok', 'strpbrk', 'realpath', 'freopen', 'fdopen', 'opendir', 'readdir', 'ctime', 'bsearch'}
# arguments a C library function dereferences
EXTREQ = {'strlen': [0], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strcpy': [0, 1], 'strncpy': [0, 1], 'strcat': [0, 1], 'strdup': [0], 'strndup': [0],
          'memcpy': [0, 1], 'memmove': [0, 1], 'memcmp': [0, 1], 'strchr': [0], 'strrchr': [0], 'strstr': [0, 1], 'strtoul': [0], 'strtol': [0],
          'strtod': [0], 'strtold': [0], 'atoi': [0], 'fopen': [0], 'fclose': [0], 'fread': [3], 'fwrite': [3], 'fprintf': [0], 'vfprintf': [0], 'fputs': [0, 1],
          'fputc': [1], 'ferror': [0], 'getc': [0], 'fgetc': [0], 'stat': [0, 1], 'strncasecmp': [0, 1], 'strcasecmp': [0, 1], 'memset': [0], 'unlink': [0], 'memchr': [0],
          'dirname': [], 'basename': []}


class NClient(Client):
    K, KH = 10, 4
    merge_cells = True

    def __init__(s, an, fn): s.an, s.fn, s.req, s.rets = an, fn, set(), set()

    def entry(s, st, fn): st.user = 0

    # -- which terms may be NULL ---------------------------------------
    def nullable(s, st, t):
        """name of the lookup t comes from, if it may be NULL here"""
        if t == NULL: return 'NULL'
        f = st.facts.get(t)
        if f and (f[0] == 'nin' and 0 in f[1] or f[0] == 'in' and 0 not in f[1]): return None
        if t[0] == 'call':
            if t[1] in s.an.cond.get(s.fn.name, {}): pass
            i = s.fn.by_id[t[1]]
            n = s.lookup(i)
            if n is None: return None
            if f and f[0] == 'in' and f[1] == frozenset((0,)): return n
            return n
        if t[0] == 'ld':
            c = cls(t[2])
            if c[0] == 'F' and (c[1], c[2]) in OPT: return '%s.%s' % (c[1], c[2])
            return None
        m = st.facts.get(('mb', t))
        if m: return next(iter(m[1]))
        return None

    def lookup(s, i):
        for c in s.mod.callees(i):
            if c in EXTNULL or c in s.an.maynull: return c
        return None

    def join_term(s, facts, nt, x, a, y, c):
        n = s.nullable(x, a) or s.nullable(y, c)
        if n: facts[('mb', nt)] = ('in', frozenset((n,)))

    def move_term(s, facts, st, old, new):
        n = s.nullable(st, old)
        if n: facts[('mb', new)] = ('in', frozenset((n,)))

    def deref(s, st, ins, addr, how):
        r = addr
        if r[0] not in ('f', 'x', 'a', 'call', 'phi', 'mphi', 'null', 'ld', 'av'): return
        while r[0] in ('f', 'x'): r = r[1]
        if r[0] == 'a':
            f = st.facts.get(r)
            if not (f and (f[0] == 'nin' and 0 in f[1] or f[0] == 'in' and 0 not in f[1])): s.req.add(r[1])
            return
        s.an.nuses += 1
        n = s.nullable(st, r)
        if n and '.' in n and s.an.known(n):
            s.an.report(s.fn, ins, n, '%s, which can be absent, is %s without having been tested' % (n, how))
        elif n and n != 'NULL':
            s.an.report(s.fn, ins, n, 'the result of %s(), which can be NULL, is %s without having been tested' % (n, how))
        elif n == 'NULL' and addr != NULL and r == NULL:
            s.an.report(s.fn, ins, 'NULL', 'a null pointer is %s on this path' % how)

    def load(s, st, ins, addr, val): s.deref(st, ins, addr, 'read through')
    def store(s, st, ins, addr, val): s.deref(st, ins, addr, 'written through')

    def instr(s, st, ins, val):
        # pointer arithmetic on something absent
        if ins.op == 'getelementptr':
            b = s.eng.opnd(st, ins.ops[0])
            if b[0] in ('a', 'null'): return
            while b[0] in ('f', 'x'): b = b[1]
            if b[0] in ('a', 'null'): return
            n = s.nullable(st, b)
            if n: s.deref(st, ins, b, 'used to compute an address')

    def call(s, st, ins, args):
        n = ins.callee
        if ins.callee in s.mod.fns and s.mod.fns[ins.callee].vararg and s.an.fstr(ins):
            p, convs = s.an.fstr(ins)
            for k, cv in enumerate(convs):
                if cv == 's' and p + k < len(args) and args[p + k] == NULL: s.an.report(s.fn, ins, 'NULL', 'a null pointer is printed on this path')
                elif cv == 's' and p + k < len(args): s.deref(st, ins, args[p + k], 'printed')
        if n in EXTREQ:
            for k in EXTREQ[n]:
                if k < len(args):
                    if args[k] == NULL: s.an.report(s.fn, ins, 'NULL', 'a null pointer is passed to %s() on this path' % n)
                    else: s.deref(st, ins, args[k], 'passed to %s()' % n)
        elif n and n.startswith('llvm.mem'):
            s.deref(st, ins, args[0], 'written through')
            if not n.startswith('llvm.memset'): s.deref(st, ins, args[1], 'read through')
        else:
            for c in s.mod.callees(ins):
                for k in s.an.req.get(c, ()):
                    if k < len(args):
                        if args[k] == NULL and not isinstance(ins.ops[k], list):
                            s.an.report(s.fn, ins, 'NULL', 'a null pointer is passed to %s(), which uses it, on this path' % c)
                        else: s.deref(st, ins, args[k], 'passed to %s(), which uses it' % c)
        return None

    def ret(s, st, ins, val):
        if val is None: return
        if s.fn.ret != 'ptr': return
        if val == NULL: s.rets.add('null')
        elif s.nullable(st, val): s.rets.add('null')
        elif val[0] in ('al', 'g'): s.rets.add('nn')
        else:
            f = st.facts.get(val)
            if f and f[0] == 'in' and f[1] == frozenset((0,)): s.rets.add('null')


class Nulls:
    def __init__(s, mod):
        s.mod, s.mods = mod, Mods(mod)
        s.rep = {}
        s.maynull, s.req, s.cond = set(), {}, {}
        s.nuses = s.nfns = 0
        s.fcache, s.nopt = {}, set()
        s.reps, s.uses = {}, {}

    def report(s, fn, ins, k, msg):
        s.cur.setdefault((fn.name, k, ins.loc), (ins, 'in %s(): %s' % (fn.name, msg)))

    def known(s, n):
        s.nopt.add(n)
        return True

    def fstr(s, ins):
        if id(ins) not in s.fcache:
            f = s.mod.fns[ins.callee]
            r = None
            p = len(f.args)
            o = ins.ops[p - 1] if 0 < p <= len(ins.ops) else None
            c = s.mod.cstr(o) if isinstance(o, list) else None
            if c is not None:
                r = (p, [m.group(7).decode() for m in fmts.CONV.finditer(c) if m.group(1) != b'%' and m.group(3) != b'*' and m.group(5) != b'*'])
                if b'*' in c: r = None
            s.fcache[id(ins)] = r
        return s.fcache[id(ins)]

    def one(s, n):
        f = s.mod.defs[n]
        s.cur, s.nuses = {}, 0
        cl = NClient(s, f)
        e = Engine(s.mod, cl, s.mods); cl.eng, cl.mod = e, s.mod
        e.run(f)
        # the last analysis of a function is the one made with final summaries
        s.reps[n], s.uses[n] = s.cur, s.nuses
        return cl

    def run(s):
        m = s.mod
        work = [n for c in m.sccs() for n in c]
        rounds = 0
        while work:
            rounds += 1
            nxt = set()
            for n in work:
                cl = s.one(n)
                s.nfns += 1
                if 'null' in cl.rets and n not in s.maynull:
                    s.maynull.add(n); nxt |= {c.fn.name for c in m.callers.get(n, [])}
                if cl.req != s.req.get(n, set()):
                    s.req[n] = set(cl.req); nxt |= {c.fn.name for c in m.callers.get(n, [])}
            work = [n for c in m.sccs() for n in c if n in nxt]
            if rounds > 30: raise ir.Broken('no convergence')
        for r in s.reps.values(): s.rep.update(r)
        s.nuses = sum(s.uses.values())
        return s
