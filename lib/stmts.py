"""Statements: what the code generator prints for one, and the events (evaluations, nested
statements, deferred statements) between, as a program whose control flow is compared with C's."""
import re
import abi, absint, x86
from absint import C, NULL
from abi import fld, av
from emit import A0, T
from x86 import M, sx
from ir import Broken

LBL = re.compile(r'^([^\s:"]+):\s*(.*)$')


class Bad(Exception): pass


class Engine(abi.Engine):
    def simp(s, op, w, *ops):
        if op in ('icmp eq', 'icmp ne') and ops[0] != ops[1] and ops[0][0] == ops[1][0] == 'a': return C(-1 if op == 'icmp ne' else 0)
        return super().simp(op, w, *ops)


class Stm(abi.Abi):
    ENGINE = Engine
    texts = ('%rbp', '%rsp', 'BRK', 'CONT', 'GOTO') + tuple('L%d' % i for i in range(6))

    # the log: st.user[0] is a tuple of items
    def emit(s, st, text): s.log(st, ('T', text))
    def log(s, st, *e): st.user = (st.user[0] + e, st.user[1])
    def each(s, st, fn): s.log(st, ('?',))
    def threads(s, st): return []
    def put(s, st, th): pass

    def state(s, m=None):
        st = super().state(m)
        st.user = ((), ())
        return st

    def ev(k):
        def f(s, st, ins, args):
            s.log(st, (k, args[0]))
            return [(st, None)]
        return f
    c_gen_void_expr, c_gen_addr = ev('V'), ev('A')

    def c_gen_expr2(s, st, ins, args):
        if args[0] == s.top: return s.sub(st, 'gen_expr2', args) if 'gen_expr2' not in s.active else [(st, None)]
        s.log(st, ('E', args[0]))
        return [(st, None)]

    def c_gen_expr(s, st, ins, args):
        s.log(st, ('E', args[0]))
        return [(st, None)]

    def c_gen_stmt(s, st, ins, args):
        s.log(st, ('S', args[0]))
        return [(st, None)]

    def c_gen_defr(s, st, ins, args):
        s.log(st, ('D', args[0]))
        return [(st, None)]

    def c_gen_void_assign(s, st, ins, args):
        s.log(st, ('W', args[0]))
        return [(st, None)]
    c_gen_void_arith_assign = c_gen_void_assign

    def c_gen_cond(s, st, ins, args):
        j = s.e.vset(st, args[1])
        out = []
        for v in (sorted(j) if j is not None and len(j) == 1 else (0, -1)):
            q = st.copy()
            if (j is None or len(j) > 1) and not s.e.assume(q, args[1], bool(v & 1)): continue
            s.log(q, ('C', args[0], bool(v & 1), s.argtext(q, args[2], 's', None)[0][1]))
            out.append((q, None))
        return out

    def c_count(s, st, ins, args):
        n = sum(1 for e in st.user[0] if e[0] == 'count')
        s.log(st, ('count',))
        return [(st, ('unk', 'count%d' % n))]

    def saver(*k):
        def f(s, st, ins, args):
            s.log(st, k)
            return [(st, ('unk', 'slot') if ins.ty != 'void' else None)]
        return f
    c_push, c_pushf, c_push_x87, c_push_copy = saver('push', 'rax'), saver('push', 'xmm0'), saver('push', 'st0'), saver('push', 'copy')
    c_pop_x87, c_pop_copy = saver('pop', 'st0'), saver('pop', 'copy')

    def c_pop(s, st, ins, args):
        s.log(st, ('pop', (s.argtext(st, args[0], 's', None)[0][1] or '?').lstrip('%')))
        return [(st, None)]

    def c_popf(s, st, ins, args):
        s.log(st, ('pop', 'xmm%d' % args[0][1] if args[0][0] == 'c' else '?'))
        return [(st, ('unk', 'slot'))]
    c_copy_struct_reg, c_copy_struct_mem, c_gen_asm = saver('returning', 'copied'), saver('returning', 'stored'), saver('other')
    def c_print_loc(s, st, ins, args): return [(st, None)]
    def c_internal_error(s, st, ins, args): return []
    def c_error_ice(s, st, ins, args): return []

    def kid(s, f, null=False):
        if null: s.cell_(A0, 'Node', **{f: NULL}); return None
        return s.ptr(s.new(fld(A0, 'Node', f)))

    def begin(s, cf):
        super().begin(cf)
        s.top = None
        s.ptr(A0)
        s.ptr(s.new(fld(A0, 'Node', 'tok')))
        s.cell_(A0, 'Node', kind=s.nk[cf['kind']], brk_label=s.txt('BRK'), cont_label=s.txt('CONT'), unique_label=s.txt('GOTO'))
        if cf.get('defr'):
            s.cell_(A0, 'Node', defr_start=s.ptr(('a', 70)), defr_end=NULL)
        else: s.cell_(A0, 'Node', defr_start=s.ptr(('a', 70)), defr_end=('a', 70))

    def chain(s, at, n, mk=None):
        out, p = [], at
        for i in range(n):
            x = s.ptr(s.new(p))
            out.append(x)
            p = fld(x, 'Node', 'next')
        s.cfg_cells[p] = NULL
        return out

    # ---- reference programs: list of (name, event, {outcome: next name})
    def reference(s, cf):
        k = cf['kind']
        D = [('D', A0)] if cf.get('defr') else []
        def seq(items, end='exit'):
            g = {}
            for i, e in enumerate(items): g['s%d' % i] = (e, {None: 's%d' % (i + 1) if i + 1 < len(items) else end})
            return g, 's0' if items else end
        if k == 'IF':
            c, t, e = s.kid('cond'), s.kid('then'), s.kid('els', not cf['els'])
            return {'c': (('C', c), {True: 't', False: 'e' if e else 'exit'}), 't': (('S', t), {None: 'exit'}), 'e': (('S', e), {None: 'exit'})}, 'c'
        if k == 'FOR':
            i, c, n, t = s.kid('init', not cf['init']), s.kid('cond', not cf['cond']), s.kid('inc', not cf['inc']), s.kid('then')
            D = D[0] if D else None
            after = 'd' if D else 'c' if c else 't'
            return {'i': (('S', i), {None: 'c' if c else 't'}), 'c': (('C', c), {True: 't', False: 'exit'}), 't': (('S', t), {None: 'n' if n else after, 'CONT': 'n' if n else after, 'BRK': 'exit'}),
                    'n': (('V', n), {None: after}), 'd': (D, {None: 'c' if c else 't'})}, 'i' if i else 'c' if c else 't'
        if k == 'DO':
            c, t = s.kid('cond'), s.kid('then')
            return {'t': (('S', t), {None: 'c', 'CONT': 'c', 'BRK': 'exit'}), 'c': (('C', c), {True: 't', False: 'exit'})}, 't'
        if k == 'BLOCK':
            b = s.chain(fld(A0, 'Node', 'body'), cf['n'])
            return seq([('S', x) for x in b] + D)
        if k == 'GOTO': return seq(D, ('out', 'GOTO'))
        if k == 'GOTO_EXPR': return seq([('E', s.kid('lhs'))], ('out', '*%rax'))
        if k == 'LABEL': return {'exit0': None}, 'exit'
        if k == 'EXPR_STMT': return seq([('V', s.kid('lhs'))])
        if k == 'NULL_STMT': return seq([])
        if k == 'RETURN':
            t = cf.get('ty')
            l = s.kid('lhs', not t)
            if not t: return seq(D, ('out', 'RTN'))
            t = T[t] if isinstance(t, str) else abi.St('{}', *[T['i64']] * t[0])
            s.type(s.ptr(s.new(fld(l, 'Node', 'ty'))), t)
            save = lambda r: [('push', r)] + D + [('pop', r)] if D else []
            if isinstance(t, abi.Ag):
                if t.size <= 16: return seq([('E', l)] + save('copy') + [('returning', 'copied')], ('out', 'RTN'))
                return seq([('E', l), ('returning', 'stored')] + save('rax'), ('out', 'RTN'))
            return seq([('E', l)] + save({'f32': 'xmm0', 'f64': 'xmm0', 'f80': 'st0'}.get(cf['ty'], 'rax')), ('out', 'RTN'))
        if k == 'STMT_EXPR':
            b = s.chain(fld(A0, 'Node', 'body'), cf['n'])
            ev = [('S', x) for x in b]
            if b:
                x = b[-1]
                s.cell_(x, 'Node', kind=s.nk['EXPR_STMT' if cf['val'] else 'NULL_STMT'])
                e = s.ptr(s.new(fld(x, 'Node', 'lhs')))
                if cf['val']: ev[-1] = ('E', e)
            ty = cf.get('ty', 'i32')
            s.type(s.ptr(s.new(fld(A0, 'Node', 'ty'))), T[ty])
            r = {'f32': 'xmm0', 'f64': 'xmm0', 'f80': 'st0'}.get(ty, 'rax')
            if D: ev += [('push', r)] + D + [('pop', r)]
            return seq(ev)
        raise Broken('kind ' + k)

    def stmt(s, cf):
        """[(problem or None)] for one statement"""
        s.begin(cf)
        ref, start = s.reference(cf)
        s.top = A0
        fn = 'gen_expr2' if cf['kind'] == 'STMT_EXPR' else 'gen_stmt'
        st = s.state()
        out = []
        for q, _ in s.sub(st, fn, [A0] + ([C(0)] if fn == 'gen_expr2' else [])): out.append(s.judge(cf, ref, start, q))
        s.n['configs'] += 1
        return out

    # ---- the program printed
    def program(s, st):
        prog, lab = [], {}
        for e in st.user[0]:
            if e[0] == 'count' or e == ('D', A0) and not s.cf.get('defr'): continue
            if e[0] != 'T': prog.append(e); continue
            for l in e[1].split('\n'):
                for ins in l.split(';'):
                    ins = ins.strip()
                    m = LBL.match(ins)
                    if m and not ins.startswith('%'):
                        if m.group(1) in lab: raise Bad('a label is defined twice')
                        lab[m.group(1)] = len(prog)
                        ins = m.group(2)
                    if ins: prog.append(('ins', ins))
        return prog, lab

    def judge(s, cf, ref, start, st):
        try:
            prog, lab = s.program(st)
            if cf['kind'] == 'LABEL':
                if prog or lab != {'GOTO': 0}: return 'the label is not all that is printed'
                return None
            s.match(cf, ref, start, prog, lab)
        except Bad as e: return str(e)
        for l in lab:
            if l in ('BRK', 'CONT'): continue
            if not re.search('\x01\\d+\x02', l) and l not in ('GOTO',): return 'a label that is not unique'
        if any(e[0] == '?' for e in prog): return '?an effect that is not known'
        return None

    def norm(s, l):
        m = re.match(r'^\.L\.rtn\.\x01', l)
        return 'RTN' if m else l

    def settle(s, prog, lab, i, seen=()):
        """the next event from a place: ('ev', index) or ('exit',) or ('out', label)"""
        n = 0
        while i < len(prog):
            n += 1
            if n > 2 * len(prog) + 5: raise Bad('the code loops without doing anything')
            e = prog[i]
            if e[0] != 'ins': return ('ev', i)
            m = re.match(r'^jmp\s+(\S+)$', e[1])
            if m:
                l = m.group(1)
                if l not in lab: return ('out', s.norm(l))
                i = lab[l]; continue
            if re.match(r'^nop', e[1]): i += 1; continue
            return ('ev', i)
        return ('exit',)

    def match(s, cf, ref, start, prog, lab):
        k = cf['kind']
        def place(x): return ('exit',) if x == 'exit' else x if isinstance(x, tuple) else ('ev', x)
        def at(l): return s.settle(prog, lab, lab[l]) if l in lab else ('out', s.norm(l))
        todo, seen = [(start, s.settle(prog, lab, 0))], set()
        while todo:
            r, p = todo.pop()
            if (r, p) in seen: continue
            seen.add((r, p))
            w = place(r)
            if w[0] != 'ev':
                if w != p: raise Bad('control goes on %s instead of %s' % (s.say(cf, prog, p), 'leaving' if w[0] == 'exit' else 'jumping to ' + w[1]))
                continue
            e, nxt = ref[r]
            if p[0] != 'ev': raise Bad('%s is missing: control goes on %s' % (s.name(cf, e), s.say(cf, prog, p)))
            g = prog[p[1]]
            if e[0] == 'V' and g[0] == 'E': g = ('V', g[1])
            if g[:len(e)] != e: raise Bad('%s comes where %s belongs' % (s.name(cf, g), s.name(cf, e)))
            if e[0] == 'C':
                for truth in (True, False):
                    t = at(g[3]) if truth == g[2] else s.settle(prog, lab, p[1] + 1)
                    todo.append((nxt[truth], t))
                continue
            for o, x in nxt.items():
                if o is None: todo.append((x, s.settle(prog, lab, p[1] + 1)))
                else:
                    if o not in lab: raise Bad('the label for %s is not defined' % {'BRK': 'break', 'CONT': 'continue'}[o])
                    todo.append((x, at(o)))
        if k in ('GOTO', 'GOTO_EXPR', 'RETURN'): return

    def say(s, cf, prog, p):
        if p[0] == 'exit': return 'to the end'
        if p[0] == 'out': return 'with a jump to ' + re.sub('\x01\\d+\x02', 'N', p[1])
        return 'with ' + s.name(cf, prog[p[1]])

    def name(s, cf, e):
        if e[0] == 'ins': return 'the instruction "%s"' % re.sub('\x01\\d+\x02', 'N', e[1])
        w = {'C': 'testing', 'S': 'statement', 'V': 'evaluating', 'E': 'evaluating', 'A': 'the address of', 'D': 'what is deferred', 'push': 'saving the value', 'pop': 'restoring the value'}.get(e[0], e[0])
        for a, v in s.cfg_cells.items():
            if len(e) > 1 and v == e[1] and a[1] == A0: return w + ' ' + a[3]
        return w

    # ---- switch
    def switch(s, cf):
        """cf: ty, cases [(label or None, lo, hi)], default (label or None)"""
        s.begin(dict(cf, kind='SWITCH'))
        c, t = s.kid('cond'), s.kid('then')
        s.type(s.new(fld(c, 'Node', 'ty')), cf['ty'])
        p = fld(A0, 'Node', 'cases')
        for l, lo, hi in cf['cases']:
            x = s.ptr(s.new(p))
            s.cell_(x, 'CaseRange', lo=lo, hi=hi, label=s.txt(l) if l else NULL)
            p = fld(x, 'CaseRange', 'next')
        s.cfg_cells[p] = NULL
        if cf['default']:
            x = s.ptr(s.new(fld(A0, 'Node', 'default_case')))
            s.cell_(x, 'CaseRange', label=s.txt(cf['default']))
        else: s.cell_(A0, 'Node', default_case=NULL)
        s.n['configs'] += 1
        return [s.judge_switch(cf, q, c, t) for q, _ in s.sub(s.state(), 'gen_stmt', [A0])]

    def judge_switch(s, cf, st, c, t):
        try:
            prog, lab = s.program(st)
            if not prog or prog[0] != ('E', c): raise Bad('the controlling expression is not evaluated first')
            ws = [i for i, e in enumerate(prog) if e == ('S', t)]
            if len(ws) != 1 or any(e[0] not in ('ins', 'S') for e in prog[1:]): raise Bad('the body is not there once')
            if 'BRK' not in lab: raise Bad('the label for break is not defined')
            for p in (s.settle(prog, lab, ws[0] + 1), s.settle(prog, lab, lab['BRK'])):
                if p != ('exit',): raise Bad('after the body control goes on %s' % s.say(cf, prog, p))
            w = cf['ty'].bits
            mask = (1 << w) - 1
            vs = set()
            for l, lo, hi in cf['cases']:
                for b in (lo, hi): vs |= {(b + d) & mask for d in (-1, 0, 1)}
                vs.add((lo + hi) // 2 & mask)
            vs |= {0, 1, mask, 1 << (w - 1), (1 << (w - 1)) - 1, 0x80000000 & mask, 0x7fffffff, 0xffffffff & mask, 0x100000000 & mask, 12345 & mask}
            for v in sorted(vs):
                x = sx(v, w) if not cf['ty'].uns else v
                want = cf['default'] or 'BRK'
                for l, lo, hi in cf['cases']:
                    if l and lo <= x <= hi: want = l
                got = s.dispatch(prog, lab, v, w, ws[0])
                if got != want: raise Bad('the value %d goes to %s, not to %s' % (x, got, want))
        except Bad as e: return str(e)
        return None

    def dispatch(s, prog, lab, v, w, body):
        """where a value of the controlling expression goes"""
        t = M()
        for r in ('rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'): t.regs[r] = C(0xdeadbeef12345678)
        t.regs['rax'] = C(v | (0xabcdef01 << 32 if w == 32 else 0))
        i, n = 1, 0
        while True:
            n += 1
            if n > 2000: raise Bad('the dispatch loops')
            if i >= len(prog): return 'the end'
            e = prog[i]
            if e[0] != 'ins': return 'the body' if i == body else 'another event'
            m = re.match(r'^jmp\s+(\S+)$', e[1])
            if m: l = m.group(1)
            else:
                try: ts = s.x.one(t.copy(), e[1])
                except x86.Poison as er: raise Bad('"%s" is not understood: %s' % (e[1], er))
                l = None
                if len(ts) == 2:
                    k = ts[0].cond[-1][0]
                    taken = bool(ev(k) & 1)
                    t = ts[1] if taken else ts[0]
                    if taken: l = t.wait
                    t = t.copy(); t.wait = None; t.cond = ()
                else:
                    t = ts[0]
                for y in t.im:
                    if y[0] == 'c' and not -2 ** 31 <= sx(y[1] & (1 << 64) - 1, 64) < 2 ** 31: raise Bad('the immediate operand of "%s" does not fit' % re.sub('\x01\\d+\x02', 'N', e[1]))
                for r, y in list(t.regs.items()):
                    if isinstance(y, tuple) and y[0] == 'op': t.regs[r] = C(ev(y) & ((1 << 64) - 1))
                if l is None: i += 1; continue
            if l in lab and l != 'BRK': i = lab[l]; continue
            return l

    # ---- deferred statements
    def defr(s, cf):
        """cf: list of kinds, where the range ends, live"""
        s.begin(dict(cf, kind='BLOCK'))
        fnp = s.ptr(('a', 60))
        n = len(cf['list'])
        p = fld(A0, 'Node', 'defr_start')
        ds = []
        for i, k in enumerate(cf['list'] + cf['rest']):
            x = s.ptr(s.new(p))
            ds.append(x)
            s.cell_(x, 'DeferStmt', kind=s.m.E({'V': 'DF_VLA_DEALLOC', 'C': 'DF_CLEANUP_FN', 'D': 'DF_DEFER_STMT'}[k]))
            for f in ('cleanup_fn', 'stmt'): s.ptr(s.new(fld(x, 'DeferStmt', f)))
            p = fld(x, 'DeferStmt', 'next')
        s.cfg_cells[p] = NULL
        if not ds: s.cfg_cells[fld(A0, 'Node', 'defr_start')] = NULL
        s.cell_(A0, 'Node', defr_end=ds[n] if n < len(ds) else NULL)
        # the innermost variable-length array alive below each
        vla = NULL
        names = {}
        for i in reversed(range(len(ds))):
            if (cf['list'] + cf['rest'])[i] == 'V':
                vla = s.ptr(('a', 80 + i))
                s.cell_(vla, 'Obj', ofs=-16 * (i + 1), ptr=s.txt('%rbp'))
                names[vla] = '%d(%%rbp)' % (-16 * (i + 1))
            s.cell_(ds[i], 'DeferStmt', vla=vla)
        s.n['configs'] += 1
        st = s.state()
        for g in s.m.globals:
            if g.split('.')[0] == 'current_fn': st.mem[('g', g, 0)] = fnp
        s.cell_(fnp, 'Obj', dealloc_vla=int(cf['live']))
        # what is expected
        want, restore = [], False
        kinds = cf['list'] + cf['rest']
        for i in range(n):
            d = ds[i]
            if kinds[i] == 'V':
                if cf['live'] and (i + 1 >= n or kinds[i + 1] != 'V'):
                    below = s.cfg_cells[fld(ds[i + 1], 'DeferStmt', 'vla')] if i + 1 < len(ds) else NULL
                    want.append(('R', names.get(below)))
            elif kinds[i] == 'C': want.append(('V', s.cfg_cells[fld(d, 'DeferStmt', 'cleanup_fn')]))
            else: want.append(('S', s.cfg_cells[fld(d, 'DeferStmt', 'stmt')]))
        out = []
        try: ends = s.sub(st, 'gen_defr', [A0])
        except Broken as e:
            # all the links are known here, so that a walk without an end has left the list
            if 'unrolled' not in str(e): raise
            return ['the walk along what is deferred goes past its end']
        for q, _ in ends:
            try: prog, lab = s.program(q)
            except Bad as e: out.append(str(e)); continue
            got = []
            for e in prog:
                if e[0] == 'ins':
                    m = re.match(r'^movq? (\S+), %rsp$', e[1])
                    if not m: got = None; break
                    got.append(('R', m.group(1) if '\x01' not in m.group(1) else None))
                elif e[0] == 'E': got.append(('V', e[1]))
                else: got.append(e)
            # restoring the stack more often than needed does no harm as long as the last one is right
            if got is None: out.append('an instruction that is not known'); continue
            out.append(None if [e for e in got] == want else 'what is deferred is not run as it should: %s, expected %s' % (s.show(got), s.show(want)))
        if not out: out.append('the end of what is deferred is never reached')
        return out

    def show(s, l): return ' '.join({'R': 'release', 'V': 'cleanup', 'S': 'statement'}.get(e[0], e[0]) for e in l) or 'nothing'


def ev(t):
    if t[0] == 'c': return t[1]
    if t[0] != 'op': raise Bad('a value that is not known')
    o, w, a = t[1], t[2], t[3:]
    m = (1 << w) - 1
    if o in ('zext', 'trunc', 'sext'):
        x = ev(a[0])
        if o == 'trunc': return x & m
        f = a[1] if len(a) > 1 and isinstance(a[1], int) else a[1][1] if len(a) > 1 else 32
        return x & ((1 << f) - 1) if o == 'zext' else sx(x & ((1 << f) - 1), f) & m
    x, y = ev(a[0]) & m, ev(a[1]) & m
    if o.startswith('icmp '):
        p = o[5:]
        if p[0] == 's': x, y = sx(x, w), sx(y, w); p = p[1:]
        elif p[0] == 'u': p = p[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    r = {'add': x + y, 'sub': x - y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'mul': x * y}.get(o)
    if r is None: raise Bad('operation ' + o)
    return r & m
