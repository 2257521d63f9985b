"""P31: calls, parameters, results and variable arguments follow the x86-64
System V calling convention.

The code generator's functions for calls, for the beginning and end of a
function, for return statements and for variable arguments are interpreted on
abstract nodes (see emit.py) for lists of parameter types; every byte that the
emitted code moves is followed from where it was (see prov)."""
import itertools, re
import random
import absint, emit, x86, termval, fpnum
from absint import C, NULL
from emit import A0, T, fld, av
from x86 import M, op, ext, trunc, add, Poison
from ir import Broken

GP = ('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9')


# ---- types and their classes (System V ABI, AMD64 supplement, 3.2.3)
class Ag:
    """a structure, union or array"""

    def __init__(s, name, what, parts, size, align): s.name, s.what, s.parts, s.size, s.align = name, what, parts, size, align
    cls, fw, uns, base = 'agg', None, False, False

    def leaves(s, o=0):
        for k, t in s.parts:
            if isinstance(t, Ag): yield from t.leaves(o + k)
            else: yield o + k, t


def St(name, *fs, al=1, pack=False, un=False):
    o, parts, a = 0, [], al
    for f in fs:
        x = 1 if pack else f.align
        o = 0 if un else (o + x - 1) // x * x
        parts.append((o, f)); a = max(a, x)
        if un: size = max((f.size for f in fs))
        else: o += f.size
    if not un: size = o
    return Ag(name, 'UNION' if un else 'STRUCT', parts, (size + a - 1) // a * a, a)


def Ar(t, n):
    r = Ag('%s[%d]' % (t.name, n), 'ARRAY', [(i * t.size, t) for i in range(n)], t.size * n, t.align)
    r.elem = t
    return r


def classes(t):
    """of each eightbyte, or None for memory"""
    if not isinstance(t, Ag):
        return {'gp': ['I'], 'ss': ['S'], 'sd': ['S'], 'ld': None}[t.cls]
    if t.size > 16: return None
    c = [None] * ((t.size + 7) // 8)
    for o, l in t.leaves():
        if o % l.align: return None
        k = {'gp': 'I', 'ss': 'S', 'sd': 'S', 'ld': 'X'}[l.cls]
        if k == 'X': return None
        b = o // 8
        c[b] = 'I' if 'I' in (k, c[b]) else k
    return c


def x87(t):
    """returned on the floating-point stack"""
    if not isinstance(t, Ag): return t.cls == 'ld'
    return t.size == 16 and all(l.cls == 'ld' for o, l in t.leaves()) and any(1 for _ in t.leaves())


def inmem(t): return t is not None and isinstance(t, Ag) and classes(t) is None and not x87(t)


def place(ts, hidden):
    """where each argument is: ('r', [register per eightbyte]) or ('s', offset); registers used; stack"""
    g, f, st, out = int(hidden), 0, 0, []
    for t in ts:
        c = classes(t)
        if c is not None:
            ng, nf = c.count('I'), c.count('S')
            if g + ng <= 6 and f + nf <= 8:
                r = []
                for k in c:
                    if k == 'I': r.append(GP[g]); g += 1
                    elif k == 'S': r.append('xmm%d' % f); f += 1
                    else: r.append(None)
                out.append(('r', r)); continue
        a = max(8, t.align)
        st = (st + a - 1) // a * a
        out.append(('s', st))
        st += (t.size + 7) // 8 * 8
    return out, g, f, st


# ---- the machine
class Exec(x86.Exec):
    """memory is kept byte by byte; addresses with different bases are apart"""

    def norm(s, a):
        k = 0
        while True:
            if a[0] == 'op' and a[1] == 'add':
                if a[4][0] == 'c': k += a[4][1]; a = a[3]; continue
                if a[3][0] == 'c': k += a[3][1]; a = a[4]; continue
            break
        if a[0] in ('spv', 'sp'): return 'sp', a[1] + k
        return a, k

    def addr(s, t, o):
        a = super().addr(t, o)
        if a[0] == 'sp': return a
        b, k = s.norm(a)
        if b == ('rbp',): b, k = s.norm(add(t.regs.get('rbp', ('spv', 1 << 16)), C(k)))
        return ('sp', k) if b == 'sp' else add(b, C(k))

    def load(s, t, a, sz, cls='i'):
        b, k = s.norm(a)
        bs = [t.smem.get((b if b == 'sp' else str(b), k + i)) for i in range(sz)]
        if all(x is None for x in bs): return ('M', ('sp', k) if b == 'sp' else a, sz)
        if all(x is not None for x in bs) and len({x[0] for x in bs}) == 1 and [x[1] for x in bs] == list(range(sz)) and (bs[0][2] == sz or cls == 'i' and bs[0][2] > sz): return bs[0][0]
        return ('bytes',) + tuple((('M', ('sp', k + i) if b == 'sp' else add(b, C(k + i)), 1), 0) if x is None else x[:2] for i, x in enumerate(bs))

    def store(s, t, a, sz, v):
        b, k = s.norm(a)
        for i in range(sz): t.smem[(b if b == 'sp' else str(b), k + i)] = (v, i, sz)
        if b == 'sp':
            lo = t.smem.get(('lim', 0))
            if lo is not None and k < lo[1] and k + sz > lo[0] and k >= t.sp: raise Poison('!the frame is overwritten')

    def one(s, t, ins):
        if ins[0] == '.' or ins.endswith(':') and ins[0] == '"': return [t]
        return super().one(t, ins)

    def rd(s, t, o, w, wide=False):
        if o == '%rsp': return ('spv', t.sp)
        if o == '%rbp' and 'rbp' not in t.regs: return ('spv', 1 << 16)
        return super().rd(t, o, w, wide)

    def wr(s, t, o, w, v):
        if o in ('%rsp', '%rbp') and w == 64:
            if o == '%rsp':
                if v[0] != 'spv': raise Poison('!the stack pointer gets another value')
                t.sp = v[1]
            else: t.regs['rbp'] = v
            return
        super().wr(t, o, w, v)

    def g_alu(s, t, base, mn, ops):
        if len(ops) == 2 and ops[1] == '%rsp':
            k = s.imm(ops[0]) if ops[0][0] == '$' else None
            if k is None or k[0] != 'c': raise Poison('rsp')
            if base in ('add', 'sub'):
                t.sp += k[1] if base == 'add' else -k[1]
            elif base == 'and':
                a = -k[1]
                if a <= 0 or a & (a - 1): raise Poison('rsp')
                # as far down as the alignment allows at least; then unknown
                lo = t.smem.get(('lim', 0))
                n = t.sp
                t.sp = ((n >> 20) - 1) * (1 << 20) + a
                if lo is not None: t.smem[('lim', 0)] = (t.sp + (lo[0] - n), t.sp + (1 << 14))
            else: raise Poison('rsp')
            t.flags = None
            return
        super().g_alu(t, base, mn, ops)

    def i_push(s, t, ops):
        v = s.rd(t, ops[0], 64)
        t.sp -= 8
        s.store(t, ('sp', t.sp), 8, v)

    def i_pop(s, t, ops):
        v = s.load(t, ('sp', t.sp), 8)
        t.sp += 8
        s.wr(t, ops[0], 64, v)

    def i_leave(s, t, ops):
        b = t.get('rbp')
        if b[0] != 'spv': raise Poison('!the frame pointer is lost')
        t.sp = b[1]
        s.i_pop(t, ['%rbp'])

    def i_ret(s, t, ops): t.eff += (('ret', t.copy().freeze()),); t.wait = 'returned'

    def i_call(s, t, ops):
        o = ops[0]
        if o.startswith('*'): r, w, _ = s.reg(o[1:]); tgt = t.get(r), r
        else: tgt = ('direct',), None
        t.eff += (('call', tgt, t.copy().freeze()),)
        if t.sp % 16: raise Poison('!the stack is not aligned at a call')
        sm = dict(t.smem)
        t.clobber()
        for k in ('rax', 'rdx', 'xmm0', 'xmm1'): t.regs[k] = ('retv', k)
        t.st = s.retst

    retst = ()

    def i_movaps(s, t, o):
        if all(map(s.isreg, o)): return super().i_movaps(t, o)
        if not s.isreg(o[0]): raise Poison('movaps')
        a = s.addr(t, o[1])
        if a[0] == 'sp' and a[1] % 16: raise Poison('!an unaligned address is given to movaps')
        s.store(t, a, 16, t.get(s.reg(o[0])[0]))
    i_movapd = i_movaps

    def g_sh(s, t, base, mn, ops): return super().g_sh(t, base, mn, ops)


x86_GEN = None


def prov(x, t, i):
    """where byte i of a term is from"""
    while True:
        k = t[0]
        if k == 'c': return ('k', (t[1] >> (8 * i)) & 255)
        if k == 'fzero': return ('k', 0)
        if k == 'reg': t = t[1]; continue
        if k == 'op':
            o, w = t[1], t[2]
            if o == 'zext':
                if i < t[4] // 8: t = t[3]; continue
                return ('k', 0)
            if o == 'sext':
                n = t[4] // 8
                if i < n: t = t[3]; continue
                return ('sx', prov(x, t[3], n - 1))
            if o == 'trunc':
                if i < w // 8: t = t[3]; continue
                return ('k', 0)
            if o == 'lshr' and t[4][0] == 'c' and t[4][1] % 8 == 0:
                j = i + t[4][1] // 8
                if j >= w // 8: return ('k', 0)
                i, t = j, t[3]; continue
            if o == 'shl' and t[4][0] == 'c' and t[4][1] % 8 == 0:
                j = i - t[4][1] // 8
                if j < 0: return ('k', 0)
                i, t = j, t[3]; continue
            if o == 'or':
                a, b = prov(x, t[3], i), prov(x, t[4], i)
                if a == ('k', 0): return b
                if b == ('k', 0): return a
        if k == 'ins':
            lo = t[4] // 8
            if lo <= i < lo + t[3] // 8: i, t = i - lo, t[2]
            else: t = t[1]
            continue
        if k == 'bytes':
            if i + 1 < len(t): t, i = t[i + 1]; continue
            return ('k', 0) if False else ('t', t, i)
        if k == 'ss' or k == 'bits': t = t[1]; continue
        if k == 'fbits': t = t[2]; continue
        if k == 'M':
            b, n = x.norm(t[1])
            if i >= t[2]: return ('t', t, i)
            if b == 'sp': return ('m', 'sp', n + i)
            if b[0] in ('reg', 'MA'): t, i = b[1], n + i; return ('t', t, i)
            if b[0] == 'V': return ('t', b, n + i)
            return ('m', b, n + i)
        return ('t', t, i)


NAMED = ('call', 'unk', 'cq', 'out', 'ld', 'al', 'al2')


def named(t):
    """the names of instructions in a term"""
    r = frozenset()
    if not isinstance(t, tuple) or not t: return r
    if t[0] in NAMED and len(t) > 1 and isinstance(t[1], str): return frozenset((t[1],))
    for x in t: r |= named(x) if isinstance(x, tuple) else frozenset()
    return r


def load(keep):
    """the program, with names of instructions that are unique in it"""
    import ir
    js = ir.build_json(tuple(sorted(keep)))
    for k, f in enumerate(js['fns']):
        def go(x):
            if isinstance(x, str): return x + '.%d' % k if re.match(r'v\d+$', x) else x
            if isinstance(x, list): return x if x and x[0] in ('g', 'fn', 'i', 'f') else [go(y) for y in x]
            return x
        for b in f.get('blocks', ()):
            for i in b['ins'] if isinstance(b, dict) else b:
                i['id'] = go(i['id']); i['ops'] = go(i['ops'])
                if isinstance(i.get('callee'), str): i['callee'] = go(i['callee'])
    return ir.Module(js)


def elem(a):
    """element of a local array"""
    if a[0] == 'al': return a, 0
    if a[0] == 'x' and a[1][0] == 'al' and a[2][0] == 'c' and a[3] != 1: return a[1], a[2][1]
    return None, None


# ---- interpreting several functions one after the other
class Engine(emit.Engine):
    argv = None

    def opnd(s, st, o):
        if isinstance(o, str) and o[0] == 'a' and s.argv is not None: return s.argv[int(o[1:])]
        return super().opnd(st, o)

    def killcall(s, st, ins, classes, args):
        a = s.c.a
        if ins.callee in a.follow or getattr(a, 'c_%s' % ins.callee, None) is not None: return
        super().killcall(st, ins, classes, args)

    def kill(s, st, addr):
        if addr[0] == 'f' and addr[2] in emit.NOALIAS:
            st.mem.pop(addr, None); return
        b, k = elem(addr)
        if b is not None:
            keep = {a: v for a, v in st.mem.items() if elem(a)[0] == b and elem(a)[1] != k}
            super().kill(st, addr)
            st.mem.update(keep)
            return
        super().kill(st, addr)


class Client(emit.Client):
    unroll = noalias_args = True

    keepall = True
    wrote = False

    def store(s, st, ins, addr, val):
        if absint.root(addr)[0] != 'al': s.wrote = True
        super().store(st, ins, addr, val)

    def extra_roots(s, st): return [t for t in st.facts] + list(s.argv)

    def ret(s, st, ins, v): s.rets.append((st, v))


class Abi(emit.Emit):
    ENGINE = Engine
    RECUR = ()                   # functions that may call themselves on addresses of their caller

    def __init__(s, mod, mods=None):
        super().__init__(mod, mods)
        s.x = Exec(s.tab)
        for t in T.values(): t.align = t.size
        s.depth = 0
        s.active = []
        s.vague = {}

    def sub(s, st, name, args):
        """the states after a function"""
        f = s.m.fns[name]
        if s.depth > 12: raise Broken('recursion in ' + name)
        pk = (name, tuple(args)) if f.argty and f.argty[0] == 'Type*' and all(isinstance(a, tuple) and (a[0] == 'c' or a in s.nnset()) for a in args) else None
        if pk is not None and pk in s.pure: return [(st, s.pure[pk])]
        c = Client(s)
        c.rets = []
        e = s.ENGINE(s.m, c, s.mods)
        e.maxstates = 20000
        n = absint.State()
        if name in s.active and name not in s.RECUR and any(named(a) for a in args): raise Broken('recursion in %s' % name)
        e.argv = c.argv = args
        n.env, n.mem, n.facts, n.d, n.user, n.trace = {}, dict(st.mem), dict(st.facts), {}, st.user, None
        old = getattr(s, 'e', None)
        s.e = e
        s.depth += 1
        s.active.append(name)
        try: e.run(f, n)
        finally:
            s.depth -= 1
            s.active.pop()
            if old is not None: s.e = old
        out = []
        for q, v in c.rets:
            r = st.copy()
            mem = {a: w for a, w in st.mem.items() if absint.root(a)[0] == 'al'}
            mem.update(q.mem)
            r.mem, r.user = mem, q.user
            r.facts = dict(st.facts)
            r.facts.update(q.facts)
            out.append((r, v))
        if pk is not None and len(out) == 1 and out[0][1] is not None and out[0][1][0] == 'c' and c.rets[0][0].user == st.user and not c.wrote: s.pure[pk] = out[0][1]
        return out

    def nnset(s):
        if s.nns is None or len(s.nns) != len(s.nn): s.nns = set(s.nn)
        return s.nns

    # ---- cells
    def cfgcell(s, addr):
        v = s.cfg_cells.get(addr)
        if v is not None: return v
        base, stn, f = addr[1:]
        if stn == 'Type' and base[0] == 'av' and base[1][2:] == ('Type', 'return_ty') and base != s.rty and s.rty is not None:
            return s.cfgcell(fld(s.rty, stn, f))
        if stn == 'Member':
            return None
        return super().cfgcell(addr)

    def cell_(s, b, stn, **kw):
        for k, v in kw.items(): s.cfg_cells[fld(b, stn, k)] = C(v) if isinstance(v, int) else v

    def new(s, at):
        s.fresh += 1
        s.cfg_cells[at] = ('a', s.fresh)
        return ('a', s.fresh)

    def ptr(s, t): s.nn.append(t); return t

    def type(s, b, t):
        """the cells of a type"""
        s.ptr(b)
        if not isinstance(t, Ag):
            s.cfg_types[b] = t
            s.cell_(b, 'Type', kind=t.kind, size=t.size, is_unsigned=int(t.uns), is_atomic=0, align=t.align)
            if not t.base: s.cell_(b, 'Type', base=NULL)
            return
        s.cell_(b, 'Type', kind=s.m.E('TY_' + t.what), size=t.size, align=t.align, is_unsigned=0, is_atomic=0, is_flexible=0, is_packed=int(any(o % l.align for o, l in t.parts)))
        if t.what == 'ARRAY':
            s.cell_(b, 'Type', array_len=len(t.parts))
            s.type(s.new(fld(b, 'Type', 'base')), t.elem)
            return
        s.cell_(b, 'Type', base=NULL)
        p = fld(b, 'Type', 'members')
        for o, x in t.parts:
            m = s.ptr(s.new(p))
            s.cell_(m, 'Member', offset=o, is_bitfield=0)
            s.type(s.new(fld(m, 'Member', 'ty')), x)
            p = fld(m, 'Member', 'next')
        s.cfg_cells[p] = NULL

    texts = ('%rbp', '%rsp')
    def argtext(s, st, a, conv, ln):
        if conv == 's' and a[0] == 'a' and a[1] >= 100: return [(st, s.texts[a[1] - 100])]
        return super().argtext(st, a, conv, ln)

    def txt(s, x): return ('a', 100 + s.texts.index(x))

    def begin(s, cf):
        s.cf = cf
        s.root = A0
        s.cfg_kind = s.cfg_akind = None
        s.cfg_bf, s.cfg_lbf = False, None
        s.cfg_types, s.cfg_cells, s.cfg_kinds, s.cfg_vars, s.cfg_nodes, s.cfg_bits = dict(s.gtypes), {}, {}, [], [], {}
        s.cfg_ptrsub, s.cfg_base = False, None
        s.nn = []
        s.fresh = 1000
        s.pure, s.nns = {}, None
        s.rty = None
        s.globals_fixed = dict(opt_optimize=cf.get('opt', 1), opt_g=0, opt_fpic=0, opt_fpie=0, opt_femulated_tls=0, opt_func_sections=0)
        s.rets = []
        s.x.retst = ()

    def state(s, m=None):
        st = absint.State()
        st.env, st.mem, st.facts, st.d, st.user, st.trace = {}, {}, {}, {}, (((m or M()).freeze(),), ()), None
        for t in s.nn: st.facts[t] = ('nin', frozenset((0,)))
        for i, x in enumerate(s.texts): st.mem[('a', 100 + i)] = ('str', x); st.facts[('a', 100 + i)] = ('nin', frozenset((0,)))
        return st

    # ---- contracts
    def call(s, st, ins, args):
        n = ins.callee
        if n in s.m.defs and getattr(s, 'c_' + n, None) is None and n not in s.hold:
            if s.m.fns[n].argty and s.m.fns[n].argty[0] == 'Type*' and s.preds.of(n) is not None: return super().call(st, ins, args)
            if n in s.follow: return s.sub(st, n, args)
        return super().call(st, ins, args)

    hold = ()
    follow = ()

    def event(s, st, e): s.each(st, lambda t: setattr(t, 'eff', t.eff + (e,)))

    def c_clobber_gp(s, st, ins, args):
        k = s.e.vset(st, args[0])
        s.event(st, ('clobber', max(k) if k else 0))
        return [(st, None)]

    def c_clobber_all_regs(s, st, ins, args):
        s.event(st, ('moved',))
        return [(st, None)]

    def c_resrvln(s, st, ins, args):
        s.each(st, lambda t: setattr(t, 'eff', t.eff + (('reserved', t.sp),)))
        return [(st, ('unk', 'line'))]

    def c_insrtln(s, st, ins, args):
        f = s.gstr(args[0])
        th = s.threads(st)
        for t in th: t.eff += (('inserted', f, args[2] if len(args) > 2 else None),)
        s.put(st, th)
        return [(st, None)]

    def c_strcmp(s, st, ins, args):
        if s.gstr(args[1]) in ('alloca', 'main'): return [(st, C(1))]
        return super().c_strcmp(st, ins, args)

    def c_error_tok(s, st, ins, args): return []

    def assign(s, st, n):
        """an assignment to a variable"""
        g = lambda f: st.mem.get(fld(n, 'Node', f))
        if n[0] != 'al': raise Poison('an assignment that is not built here')
        k, l, r = g('kind'), g('lhs'), g('rhs')
        m = s.mean(st, r)
        lm = s.mean(st, l)
        if lm[0] != 'obj': raise Poison('assignment to something else')
        v = lm[1]
        def cell(f):
            a = fld(v, 'Obj', f)
            x = st.mem.get(a)
            return x if x is not None else s.cfgcell(a)
        p, o = cell('ptr'), cell('ofs')
        if p is None or o is None or o[0] != 'c': raise Poison('a variable without a place')
        return m, '%d(%s)' % (o[1], s.argtext(st, p, 's', None)[0][1]), v

    def size_of(s, v):
        z = s.cfgcell(fld(s.cfg_cells.get(fld(v, 'Obj', 'ty'), av(v, 'Obj', 'ty')), 'Type', 'size'))
        return z[1]

    def c_gen_void_assign(s, st, ins, args):
        try: m, a, v = s.assign(st, args[0])
        except Poison as e:
            s.each(st, lambda t: setattr(t, 'poison', str(e))); return [(st, None)]
        z = s.size_of(v)
        if s.cfg_types.get(s.cfg_cells.get(fld(v, 'Obj', 'ty'))) is T['f80']: z = 10
        def f(t):
            s.setval(t, m)
            s.x.store(t, s.x.addr(t, a), z, m)
        s.each(st, f)
        return [(st, None)]

    def setval(s, t, m, evt=True):
        super().setval(t, m, evt)
        if m[0] != 'V': return
        ty = s.tyterm(m[1])
        ty = s.cfg_cells.get(fld(m[1], 'Node', 'ty'), ty)
        k = s.cfg_cells.get(fld(ty, 'Type', 'kind'))
        if k is None: return
        k = k[1]
        if k != s.m.E('TY_LDOUBLE'): t.st = ()
        if k not in (s.m.E('TY_FLOAT'), s.m.E('TY_DOUBLE')): t.regs['xmm0'] = ('junk', 'xmm0')
        if k in (s.m.E('TY_FLOAT'), s.m.E('TY_DOUBLE'), s.m.E('TY_LDOUBLE')): t.regs['rax'] = ('junk', 'rax')

    def c_is_memop_ptr(s, st, ins, args):
        k = s.cfg_cells.get(fld(s.tyterm(args[0]), 'Type', 'kind'))
        if k in (C(s.m.E('TY_STRUCT')), C(s.m.E('TY_UNION'))): return [(st, C(0))]  # not an address
        return super().c_is_memop_ptr(st, ins, args)

    def c_add_type(s, st, ins, args): return [(st, None)]

    def c_load_f32_f64(s, st, ins, args):
        k = s.e.vset(st, args[2])
        v = args[1]
        def f(t):
            if k is None or len(k) != 1: raise Poison('register')
            t.regs['xmm%d' % next(iter(k))] = v if v[0] in ('V', 'E') else ('FV', v)
            t.regs['rax'] = t.junk()
        s.each(st, f)
        return [(st, None)]

    def c_push_from(s, st, ins, args):
        r = s.argtext(st, args[0], 's', None)[0][1]
        if r != '%rsp': return super().c_push_from(st, ins, args)
        s.each(st, lambda t: setattr(t, 'slots', t.slots + (('gp', ('spv', t.sp)),)))
        return [(st, None)]

    def c_push(s, st, ins, args):
        s.event(st, ('push',))
        return super().c_push(st, ins, args)

    def c_push_copy(s, st, ins, args):
        sz = s.e.vset(st, args[0])
        def f(t):
            if sz is None or len(sz) != 1: raise Poison('size of a saved object')
            b, k = s.x.norm(t.get('rax'))
            n = (next(iter(sz)) + 7) // 8 * 8
            def one(i):
                x = t.smem.get((b if b == 'sp' else str(b), i))
                return x[:2] if x is not None else (('M', ('sp', i) if b == 'sp' else add(b, C(i)), 1), 0)
            t.slots += (('copy', tuple(one(k + i) for i in range(n))),)
        s.each(st, f)
        return [(st, None)]

    def c_pop_copy(s, st, ins, args):
        sz = s.e.vset(st, args[0])
        r = s.argtext(st, args[1], 's', None)[0][1]
        def f(t):
            v = s.popv(t, 'copy')
            if sz is None or len(sz) != 1 or v[0] == 'junk' or len(v) != (next(iter(sz)) + 7) // 8 * 8: raise Poison('size of a saved object')
            a = ('in', 'saved object %d' % len(t.slots))
            for i, x in enumerate(v): t.smem[(str(a), i)] = x + (1,)
            t.regs['rdx'] = t.junk()
            s.x.wr(t, r, 64, a)
        s.each(st, f)
        return [(st, None)]

    def c_gen_defr(s, st, ins, args):
        def f(t):
            t.eff += (('deferred',),)
            t.clobber()
            t.st = ()
        s.each(st, f)
        return [(st, None)]

    def c_gen_mem_copy2(s, st, ins, args):
        x = [s.argtext(st, a, 's', None)[0][1] for a in args[:4]]
        sz = s.e.vset(st, args[4])
        def f(t):
            if sz is None or len(sz) != 1: raise Poison('size of a copy')
            n = next(iter(sz))
            a, b = s.x.addr(t, '%s(%s)' % (x[0], x[1])), s.x.addr(t, '%s(%s)' % (x[2], x[3]))
            v = s.x.load(t, a, n)
            s.x.store(t, b, n, v)
            t.regs['rdx'] = t.junk(); t.regs['xmm0'] = t.junk()
        s.each(st, f)
        return [(st, None)]

    def c_ftell(s, st, ins, args): return [(st, ('unk', 'pos'))]

    # ==== calls
    def caller(s, cf):
        """cf: args (types), kinds of their expressions, ret, var (variadic), ptr (through a pointer)"""
        s.begin(cf)
        n = A0
        ret, ts = cf['ret'], cf['args']
        s.ptr(n)
        s.cell_(n, 'Node', kind=s.nk['FUNCALL'])
        l = s.ptr(av(n, 'Node', 'lhs'))
        lv = av(l, 'Node', 'var')
        s.cell_(l, 'Node', kind=s.nk['FUNCALL' if cf['ptr'] else 'VAR'])
        if not cf['ptr']:
            s.ptr(lv); s.ptr(av(lv, 'Obj', 'ty'))
            s.cell_(av(lv, 'Obj', 'ty'), 'Type', kind=s.m.E('TY_FUNC'))
        ft = s.ptr(av(l, 'Node', 'ty'))
        if cf['ptr'] == 1:  # a pointer; 2 is what one points to
            s.type(ft, T['ptr'])
            s.cell_(ft, 'Type', is_variadic=0)
            ft = s.ptr(av(ft, 'Type', 'base'))
        s.cell_(ft, 'Type', kind=s.m.E('TY_FUNC'), is_variadic=int(cf['var']))
        s.type(av(n, 'Node', 'ty'), ret or T['i32'])
        if ret is None: s.cell_(av(n, 'Node', 'ty'), 'Type', kind=s.m.E('TY_VOID'), size=1, align=1); s.cfg_types.pop(av(n, 'Node', 'ty'), None)
        if isinstance(ret, Ag):
            b = s.ptr(av(n, 'Node', 'ret_buffer'))
            s.cell_(b, 'Obj', ofs=-1024, ptr=s.txt('%rbp'))
            s.type(av(b, 'Obj', 'ty'), ret)
        else: s.cell_(n, 'Node', ret_buffer=NULL)
        p = fld(n, 'Node', 'args')
        vs = []
        kn = {}
        for i, t in enumerate(ts):
            v = s.ptr(s.new(p))
            vs.append(v)
            s.cell_(v, 'Obj', pass_by_stack=0, stack_offset=0, ofs=0, ptr=NULL, next=NULL)
            s.type(s.new(fld(v, 'Obj', 'ty')), t)
            e = s.ptr(s.new(fld(v, 'Obj', 'arg_expr')))
            s.type(av(e, 'Node', 'ty'), t)
            k = cf['kinds'][i]
            if k: s.cell_(e, 'Node', kind=s.nk[k])
            kn[('const', ('V', e))] = kn[('constd', ('V', e))] = k == 'NUM'
            if k == 'VAR':
                for mp in 'mp':
                    for fl in (C(-1), C(1), C(0), None): kn[('memop', mp, ('V', e), fl)] = mp == 'm'
            if k is None: del kn[('const', ('V', e))], kn[('constd', ('V', e))]
            p = fld(v, 'Obj', 'param_next')
        s.cfg_cells[p] = NULL
        sc = s.ptr(('a', 1))
        s.cfg_cells[fld(sc, 'Scope', 'locals')] = NULL
        m = M()
        m.smem[('lim', 0)] = (0, 1 << 14)
        st0 = s.state(m)
        for a, b in kn.items(): s.learn(st0, a, b)
        s.x.retst = (('retv', 'st'),) if ret is not None and x87(ret) else ()
        out = []
        for st, _ in s.sub(st0, 'prepare_funcall', [A0, sc]):
            v = st.mem.get(fld(sc, 'Scope', 'locals'), NULL)
            k = 0
            loc = []
            while v != NULL:
                if v not in vs or v in loc: raise Broken('the list of locals')
                loc.append(v)
                k += 1
                st.mem[fld(v, 'Obj', 'ofs')] = C(-2048 - 64 * k)
                st.mem[fld(v, 'Obj', 'ptr')] = s.txt('%rbp')
                x = st.mem.get(fld(v, 'Obj', 'next'))
                v = NULL if x is None else x
            out += s.sub(st, cf.get('fn', 'gen_expr2'), [A0, C(0)])
        s.n['configs'] += 1
        return out, vs

    def val(s, v): return ('V', s.cfg_cells[fld(v, 'Obj', 'arg_expr')])

    def poison(s, th):
        for t in th:
            if t.poison:
                if '!' in t.poison: return t.poison.split('!', 1)[1], None
                return None, t.poison
        return None, None

    def known_const(s, st, m): return s.known(st, ('const', m))

    def sameval(s, st, r, m, t, n):
        """does a register hold the first n bytes of a value"""
        exp = [('t', m, i) for i in range(min(n, t.size))]
        got = [prov(s.x, r, i) for i in range(min(n, t.size))]
        if got != exp and r[0] == 'FV' and r[1] == m: return True
        if got == exp:
            if t.cls == 'gp' and t.size < 4 and not isinstance(t, Ag):
                x = [prov(s.x, r, i) for i in range(t.size, 4)]
                top = ('k', 0) if t.uns else ('sx', ('t', m, t.size - 1))
                for i, b in enumerate(x):
                    if b != top and b != ('t', m, t.size + i): return False
            return True
        if t.cls == 'gp' and not isinstance(t, Ag) and s.constval(st, r, m, t): return True
        if isinstance(t, Ag): return False
        return s.sampled(st, r, m, t)

    def sampled(s, st, r, m, t, tries=160, want=10):
        """is the term the value of the node, for choices of operands"""
        good = 0
        cc = {}
        if termval.Val(s, st, None, T, cc).infeasible(): return True
        for k in range(tries):
            v = termval.Val(s, st, random.Random('%d' % k), T, cc)
            try:
                x = v.V(m[1])
                for a, f in st.facts.items():
                    if a[0] in ('a', 'bexp') or a[0] == 'av' and a[2] == 64: continue
                    try: y = v.ev(a)
                    except termval.Unknown: continue
                    if (y in f[1]) != (f[0] == 'in'): raise termval.Skip('path')
                if t.fw:
                    if not fpnum.same(v.fp(r, t.fw), x): return False
                elif (v.ev(r) - x) & ((1 << max(32, 8 * t.size)) - 1): return False
            except termval.Skip: continue
            good += 1
            if good >= want: return True
        raise termval.Unknown('no choice of operands')

    VALS = sorted({sgn * ((1 << k) + d) for k in (0, 7, 8, 15, 16, 31, 32, 33, 62, 63) for d in (-1, 0, 1) for sgn in (1, -1)} | {0})

    def constval(s, st, r, m, t):
        if s.known_const(st, m) is not True: return False
        rel = [(a, f) for a, f in st.facts.items() if a != m and has(a, m)]
        f0 = st.facts.get(m)
        b = 8 * t.size
        some = False
        for v in s.VALS:
            x = v & ((1 << b) - 1)
            x = x if t.uns else absint.sx(x, b)
            if absint.sx(x & ((1 << 64) - 1), 64) != v: continue
            if f0 is not None and (v in f0[1]) != (f0[0] == 'in'): continue
            ok = True
            for a, f in rel:
                y = absint.evalop(a, m, v)
                if y is not None and (y in f[1]) != (f[0] == 'in'): ok = False; break
            if not ok: continue
            g = absint.evalop(r, m, v)
            if g is None: return False
            w = max(4, t.size) * 8
            if (g - v) & ((1 << w) - 1): return False
            some = True
        return some

    # ---- what must hold at a call
    def judge_call(s, cf, vs, st):
        th = s.threads(st)
        bad, und = s.poison(th)
        if bad or und: return bad, und
        ret, ts = cf['ret'], cf['args']
        hidden = inmem(ret)
        where, ng, nf, stk = place(ts, hidden)
        for t in th:
            calls = [e for e in t.eff if e[0] == 'call']
            if len(calls) != 1: return None, '%d calls' % len(calls)
            e = calls[0]
            q = M.thaw(e[2])
            k = t.eff.index(e)
            if q.sp % 16 or any(c is None and tt.align > 16 for c, tt in ((classes(x), x) for x in ts)) and q.sp % max(tt.align for tt in ts if classes(tt) is None): return 'the stack is not aligned at the call', None
            al = s.x_al(q)
            used = set()
            for i, (tt, (how, pl)) in enumerate(zip(ts, where)):
                m = s.val(vs[i])
                if how == 'r':
                    for j, r in enumerate(pl):
                        if r is None: continue
                        used.add(r)
                        if not s.part(st, q, r, m, tt, 8 * j): return 'argument %d is not in %s' % (i + 1, ' and '.join('%' + x for x in pl if x)), None
                else:
                    n = 10 if tt is T['f80'] else tt.size
                    got = [prov(s.x, *s.byte(q, 'sp', q.sp + pl + b)) for b in range(n)]
                    if got != [('t', m, b) for b in range(n)] : return 'argument %d is not on the stack where it belongs' % (i + 1), None
            if hidden:
                used.add('rdi')
                if s.x.norm(q.regs.get('rdi', ('junk', 0))) != ('sp', (1 << 16) - 1024): return 'the address of the result is not in %rdi', None
            if cf['var']:
                a = q.regs.get('rax', ('junk', 'rax'))
                a = prov(s.x, a, 0)
                if a[0] != 'k' or not nf <= a[1] <= 8: return '%al does not tell how many vector registers are used', None
            tgt, reg = e[1]
            if cf['ptr']:
                f = av(A0, 'Node', 'lhs')
                if reg is None: return 'the call is not through the pointer', None
                if reg[0] == 'P':
                    i = next((j for j, x in enumerate(t.eff) if x == ('push',)), None)
                    lo = max([x[1] for x in t.eff[:k] if x[0] == 'clobber'], default=0)
                    regs = s.tmpregs()
                    if regs is None: return None, 'registers for saved values'
                    if set(regs[lo:]) & used: return 'the register that keeps the pointer is the one of an argument', None
                elif reg in used or cf['var'] and reg == 'rax': return 'the pointer is in the register of an argument', None
                if tgt not in (('reg', ('V', f)), ('V', f)): return 'the call is not through the pointer', None
            ev = [x for x in t.eff[:k] if x[0] in ('eval', 'evala')]
            if ('moved',) not in t.eff: return 'values saved in registers do not survive the call', None
            if t.sp: return 'the stack pointer is not restored after the call', None
            if t.slots: return 'a saved value is not restored', None
            r = s.result(t, ret)
            if r: return r, None
            for i in range(len(ts)):
                n = ev.count(('eval', s.val(vs[i])))
                if n > 1: return 'argument %d is evaluated twice' % (i + 1), None
                if not n and cf['kinds'][i] == 'FUNCALL': return 'argument %d is not evaluated' % (i + 1), None
        return None, None

    def x_al(s, q): return None

    def byte(s, q, b, k):
        x = q.smem.get((b if b == 'sp' else str(b), k))
        return x[:2] if x is not None else (('M', (b, k), 1), 0)

    def tmpregs(s):
        """64-bit registers for saved values, in order: where the name is read from"""
        for nm in s.m.globals:
            g = s.const(nm)
            if g is None or not re.match(r'\[6 x ptr\]$', g['ty']): continue
            v = [s.gstr(s.ginit(('x', ('g', nm, 0), C(i), 'ptr')) or ('c', 0)) for i in range(6)]
            if all(x and x[1:] in x86.REG and x86.REG[x[1:]][1] == 64 for x in v) and nm.startswith('tmpreg'): return [x[1:] for x in v]
        return None

    def part(s, st, q, r, m, t, o):
        """bytes o.. of a value in a register"""
        v = q.regs.get(r, ('junk', r))
        if not isinstance(t, Ag): return s.sameval(st, v, m, t, 8)
        n = min(8, t.size - o)
        return [prov(s.x, v, i) for i in range(n)] == [('t', m, o + i) for i in range(n)] or all(
            prov(s.x, v, i) == ('t', m, o + i) for i in range(n) if any(a <= o + i < a + l.size for a, l in t.leaves()))

    def result(s, t, ret):
        if ret is None: return None
        rax = t.regs.get('rax', ('junk', 'rax'))
        if isinstance(ret, Ag):
            if inmem(ret): return None if rax == ('retv', 'rax') or s.x.norm(rax) == ('sp', (1 << 16) - 1024) else 'the result is elsewhere'
            if s.x.norm(rax) != ('sp', (1 << 16) - 1024): return 'the address of the result is wrong'
            if x87(ret): src = [(('retv', 'st'), i) for i in range(10)]
            else:
                src, g, f = [], ['rax', 'rdx'], ['xmm0', 'xmm1']
                for c in classes(ret):
                    r = g.pop(0) if c == 'I' else f.pop(0) if c == 'S' else None
                    src += [(('retv', r) if r else None, i) for i in range(8)]
            for o, l in ret.leaves():
                for i in range(min(l.size, 10)):
                    if prov(s.x, *s.byte(t, 'sp', (1 << 16) - 1024 + o + i)) != ('t',) + src[o + i]: return 'the result is not taken from where it is returned'
            return s.beyond(t, (1 << 16) - 1024, ret.size)
        if ret.cls == 'ld': return None if t.st == (('retv', 'st'),) else 'the result is not taken from where it is returned'
        if ret.fw: return None if t.regs.get('xmm0') == ('retv', 'xmm0') else 'the result is not taken from where it is returned'
        n = ret.size
        got = [prov(s.x, rax, i) for i in range(max(4, n))]
        want = [('t', ('retv', 'rax'), i) for i in range(n)]
        want += [('k', 0) if ret.uns else ('sx', want[-1])] * (4 - n)
        return None if got == want else 'the result is not taken from where it is returned'

    def beyond(s, t, a, n):
        for (b, k) in t.smem:
            if b == 'sp' and (a - 64 <= k < a or a + n <= k < a + n + 64): return 'memory next to the result is changed'


    # ==== the function called
    def callee(s, cf):
        """cf: args, ret, var, vla, align (of a variable of the function)"""
        s.begin(cf)
        f = s.ptr(A0)
        ret, ts = cf['ret'], cf['args']
        ty = s.ptr(av(f, 'Obj', 'ty'))
        s.cell_(f, 'Obj', static_lvars=NULL, is_ctor=0, is_dtor=0, is_static=1, is_weak=0, alias_name=NULL, visibility=NULL, dealloc_vla=int(cf.get('vla', 0)), asm_name=NULL, dont_reuse_stk=0)
        s.ptr(av(f, 'Obj', 'name'))
        s.cell_(ty, 'Type', kind=s.m.E('TY_FUNC'), is_variadic=int(cf['var']))
        r = av(ty, 'Type', 'return_ty')
        s.type(r, ret or T['i32'])
        if ret is None: s.cell_(r, 'Type', kind=s.m.E('TY_VOID'), size=1, align=1); s.cfg_types.pop(r, None)
        sc = s.ptr(av(ty, 'Type', 'scopes'))
        s.cell_(sc, 'Scope', children=NULL)
        p = fld(ty, 'Type', 'param_list')
        vs = []
        for t in ts:
            v = s.ptr(s.new(p))
            vs.append(v)
            s.cell_(v, 'Obj', pass_by_stack=0, stack_offset=0, align=t.align)
            s.type(s.new(fld(v, 'Obj', 'ty')), t)
            p = fld(v, 'Obj', 'param_next')
        s.cfg_cells[p] = NULL
        extra = []
        if cf.get('align'):
            x = s.ptr(('a', 60))
            s.cell_(x, 'Obj', pass_by_stack=0, align=cf['align'])
            s.type(av(x, 'Obj', 'ty'), T['i32'])
            extra = [x]
        ch = list(reversed(vs)) + extra
        p = fld(sc, 'Scope', 'locals')
        for v in ch: s.cfg_cells[p] = v; p = fld(v, 'Obj', 'next')
        s.cfg_cells[p] = NULL
        b = s.ptr(av(f, 'Obj', 'body'))
        s.cell_(b, 'Node', kind=s.nk['RETURN'], defr_start=s.ptr(('a', 70)) if cf.get('defr') else NULL, defr_end=NULL)
        e = av(b, 'Node', 'lhs')
        if ret is None: s.cell_(b, 'Node', lhs=NULL)
        else:
            s.ptr(e)
            s.cell_(e, 'Node', kind=s.nk['FUNCALL'])
            s.type(av(e, 'Node', 'ty'), ret)
        s.body, s.snap = b, []
        vn = s.ptr(('a', 50))
        s.cell_(vn, 'Node', kind=s.nk['VA_START'])
        s.cell_(s.ptr(av(vn, 'Node', 'ty')), 'Type', kind=s.m.E('TY_VOID'), base=NULL)
        s.ptr(av(vn, 'Node', 'lhs'))
        s.type(av(av(vn, 'Node', 'lhs'), 'Node', 'ty'), T['ptr'])
        m = M()
        m.sp = -8
        for k in ('rax', 'rcx', 'rbx', 'rbp', 'r10', 'r11') + GP: m.regs[k] = ('in', k)
        for i in range(16): m.regs['xmm%d' % i] = ('in', 'xmm%d' % i)
        st = s.state(m)
        st.mem[('g', 'opt_visibility', 0)] = NULL
        out = s.sub(st, 'emit_text', [f])
        s.n['configs'] += 1
        return out, vs

    def c_gen_stmt(s, st, ins, args):
        if args[0] != s.body: return super().call(st, ins, args)
        s.snap.append((st.copy(), s.sub(st, 'gen_expr2', [('a', 50), C(0)]) if s.cf['var'] else []))
        def f(t):
            t.eff += (('body', t.copy().freeze()),)
            t.clobber()
            t.sp -= 1 << 22
        s.each(st, f)
        return s.sub(st, 'gen_stmt', [s.body])

    def where(s, st, v):
        def cell(f):
            a = fld(v, 'Obj', f)
            return st.mem.get(a) or s.cfgcell(a)
        p, o = cell('ptr'), cell('ofs')
        if p is None or o is None or o[0] != 'c': return None
        return '%d(%s)' % (o[1], s.argtext(st, p, 's', None)[0][1])

    def judge_callee(s, cf, vs, st):
        th = s.threads(st)
        bad, und = s.poison(th)
        if bad or und: return bad, und
        ret, ts = cf['ret'], cf['args']
        where, ng, nf, stk = place(ts, inmem(ret))
        m = ('V', av(s.body, 'Node', 'lhs'))
        for t in th:
            rs = [e for e in t.eff if e[0] == 'ret']
            bs = [e for e in t.eff if e[0] == 'body']
            if len(rs) != 1 or len(bs) != 1: return None, 'the end of the function'
            q = M.thaw(bs[0][1])
            sub = [e for e in t.eff if e[0] == 'inserted']
            res = [e for e in t.eff if e[0] == 'reserved']
            if len(sub) > 1 or len(res) != 1: return None, 'lines inserted later'
            n = 0
            if sub:
                if sub[0][1] != 'sub $%d, %%rsp': return None, 'lines inserted later'
                k = sub[0][2]
                if k[0] != 'c': return None, 'the size of the frame'
                n = k[1]
            if (res[0][1] - n) % 16: return 'the stack is not aligned in the function', None
            top = res[0][1]
            own = []
            for i, (v, tt, (how, pl)) in enumerate(zip(vs, ts, where)):
                w = s.where(st, v)
                if w is None: return None, 'a parameter without a place'
                try: b, a = s.x.norm(s.x.addr(q, w))
                except Poison as e: return None, str(e)
                if b != 'sp': return None, 'a parameter outside the frame'
                if a % tt.align: return 'parameter %d is not aligned' % (i + 1), None
                if how == 's':
                    if a != pl: return 'parameter %d is not looked for where it is passed' % (i + 1), None
                    continue
                if not (top - n <= a and a + tt.size <= top): return 'parameter %d is outside the frame' % (i + 1), None
                own.append((a, a + tt.size))
                for o, l in (tt.leaves() if isinstance(tt, Ag) else [(0, tt)]):
                    for j in range(l.size):
                        g = prov(s.x, *s.byte(q, 'sp', a + o + j))
                        if g != ('t', ('in', pl[(o + j) // 8]), (o + j) % 8): return 'parameter %d is not taken from where it is passed' % (i + 1), None
            own.sort()
            if any(x[1] > y[0] for x, y in zip(own, own[1:])): return 'parameters overlap', None
            # the result
            e = M.thaw(rs[0][1])
            if e.sp != -8: return 'the function returns with another stack pointer', None
            for r in ('rbp', 'rbx'):
                if e.regs.get(r) != ('in', r): return '%%%s is not restored' % r, None
            if e.slots: return 'a saved value is not restored', None
            if sum(e[0] == 'deferred' for e in t.eff) != int(bool(cf.get('defr'))): return 'what is deferred is not run once before the return', None
            if ret is None: continue
            if [x for x in t.eff if x[0] in ('eval', 'evala')] != [('eval', m)]: return 'the result is not evaluated once', None
            r = s.returned(e, ret, m)
            if r: return r, None
        return None, None

    def returned(s, e, ret, m):
        wrong = 'the result is not returned where it belongs'
        rax = e.regs.get('rax', ('junk', 'rax'))
        if isinstance(ret, Ag):
            if inmem(ret):
                if rax != ('in', 'rdi'): return 'the address of the result is not returned'
                for j in range(ret.size):
                    if prov(s.x, *s.byte(e, ('in', 'rdi'), j)) != ('t', m, j): return 'the result is not stored where the caller wants it'
                for b, k in e.smem:
                    if b == str(('in', 'rdi')) and not 0 <= k < ret.size: return 'memory next to the result is changed'
                return None
            if x87(ret):
                return None if len(e.st) == 1 and [prov(s.x, e.st[0], i) for i in range(10)] == [('t', m, i) for i in range(10)] else wrong
            g, f = ['rax', 'rdx'], ['xmm0', 'xmm1']
            rs = [g.pop(0) if c == 'I' else f.pop(0) if c == 'S' else None for c in classes(ret)]
            for o, l in ret.leaves():
                for j in range(o, o + l.size):
                    if prov(s.x, e.regs.get(rs[j // 8], ('junk', 0)), j % 8) != ('t', m, j): return wrong
            return None
        if ret.cls == 'ld': return None if e.st == (m,) else wrong
        if ret.fw: return None if e.regs.get('xmm0') == m else wrong
        return None if [prov(s.x, rax, i) for i in range(ret.size)] == [('t', m, i) for i in range(ret.size)] else wrong

    def judge_vastart(s, cf, vs, st):
        """what va_start leaves, given the registers the function was called with"""
        th = s.threads(st)
        bad, und = s.poison(th)
        if bad or und: return bad, und
        where, ng, nf, stk = place(cf['args'], inmem(cf['ret']))
        ap = ('reg', ('V', av(('a', 50), 'Node', 'lhs')))
        for al in (0, 1, 8):
            for t in th:
                ok = True
                for c, truth in t.cond:
                    x = absint.evalop(c, ('in', 'rax'), al)
                    if x is None: return None, 'a branch of the beginning of the function'
                    if bool(x & 1) != truth: ok = False
                if not ok: continue
                num = lambda k, n: [prov(s.x, *s.byte(t, ap, k + i)) for i in range(n)]
                def const(k):
                    b = num(k, 4)
                    return sum(x[1] << 8 * i for i, x in enumerate(b)) if all(x[0] == 'k' for x in b) else None
                if const(0) != 8 * ng or const(4) != 48 + 16 * nf: return 'va_start does not skip the registers of the named parameters', None
                p = []
                for k in (8, 16):
                    a = t.smem.get((str(ap), k))
                    a = s.x.norm(a[0]) if a and a[1:] == (0, 8) else None
                    if a is None or a[0] != 'sp': return 'va_start leaves no address', None
                    p.append(a[1])
                if p[0] != stk: return 'va_start does not skip the named parameters on the stack', None
                for j in range(ng, 6):
                    if [prov(s.x, *s.byte(t, 'sp', p[1] + 8 * j + i)) for i in range(8)] != [('t', ('in', GP[j]), i) for i in range(8)]: return '%%%s is not saved for va_arg' % GP[j], None
                if al:
                    for j in range(nf, 8):
                        if [prov(s.x, *s.byte(t, 'sp', p[1] + 48 + 16 * j + i)) for i in range(16)] != [('t', ('in', 'xmm%d' % j), i) for i in range(16)]: return '%%xmm%d is not saved for va_arg' % j, None
        return None, None

    # ==== va_arg
    def vaarg(s, cf):
        s.begin(cf)
        n = s.ptr(A0)
        t = cf['ty']
        s.cell_(n, 'Node', kind=s.nk['VA_ARG'])
        y = s.ptr(av(n, 'Node', 'ty'))
        s.type(y, T['ptr'])
        s.type(av(y, 'Type', 'base'), t)
        s.ptr(av(n, 'Node', 'lhs'))
        s.type(av(av(n, 'Node', 'lhs'), 'Node', 'ty'), T['ptr'])
        v = av(n, 'Node', 'var')
        s.ptr(v)
        s.cell_(v, 'Obj', ofs=-1024, ptr=s.txt('%rbp'))
        s.type(av(v, 'Obj', 'ty'), t)
        s.n['configs'] += 1
        return s.sub(s.state(), 'gen_expr2', [A0, C(0)])

    OV, RS, AP = 0x70000010, 0x10000, 0x5000

    def judge_vaarg(s, cf, st):
        th = s.threads(st)
        bad, und = s.poison(th)
        if bad or und: return bad, und
        t = cf['ty']
        c = classes(t)
        ap = ('reg', ('V', av(A0, 'Node', 'lhs')))
        al = max(8, t.align)
        up = lambda x, a: (x + a - 1) // a * a
        for g in range(0, 49, 8):
            for f in range(48, 177, 16):
                for ov in (s.OV, s.OV + 8):
                    img = g.to_bytes(4, 'little') + f.to_bytes(4, 'little') + ov.to_bytes(8, 'little') + s.RS.to_bytes(8, 'little')
                    ev = lambda x: s.evap(x, ap, img)
                    try:
                        sel = [q for q in th if all(bool(ev(k) & 1) == truth for k, truth in q.cond)]
                        if len(sel) != 1 or sel[0].wait is not None: return None, 'branches'
                        q = sel[0]
                        new = bytearray(img)
                        for k in range(24):
                            x = q.smem.get((str(ap), k))
                            if x is not None: new[k] = (ev(x[0]) >> (8 * x[1])) & 255
                        if any(b == str(ap) and not 0 <= k < 24 for b, k in q.smem): return 'va_arg changes memory next to the list', None
                        G, F, O, R = (int.from_bytes(new[a:b], 'little') for a, b in ((0, 4), (4, 8), (8, 16), (16, 24)))
                        a = s.x.norm(q.regs.get('rax', ('junk', 'rax')))
                        ad = a[1] if a[0] == 'sp' else ev(a[0]) + a[1]
                    except KeyError as e: return None, 'value in va_arg: %s' % (e.args[0],)
                    inreg = c is not None and g + 8 * c.count('I') <= 48 and f + 16 * c.count('S') <= 176
                    if inreg: want = (g + 8 * c.count('I'), f + 16 * c.count('S'), ov, s.RS)
                    else: want = (g, f, up(ov, al) + up(t.size, 8), s.RS)
                    if (G, F, O, R) != want:
                        return 'va_arg does not leave the list at the next argument', None
                    gi, fi = s.RS + g, s.RS + f
                    src = []
                    if inreg:
                        for k in c:
                            if k == 'I': src.append(gi); gi += 8
                            elif k == 'S': src.append(fi); fi += 16
                            else: src.append(None)
                    else: src = [up(ov, al) + 8 * k for k in range((t.size + 7) // 8)]
                    for o, l in (t.leaves() if isinstance(t, Ag) else [(0, t)]):
                        for j in range(o, o + min(l.size, 10)):
                            w = src[j // 8] + j % 8
                            if a[0] == 'sp':
                                b = prov(s.x, *s.byte(q, 'sp', ad + j))
                                try: b = ev(b[1]) + b[2] if b[0] == 'm' and b[1] != 'sp' else None
                                except KeyError as e: return None, 'value in va_arg'
                            else: b = ad + j
                            if b != w: return 'va_arg does not give the value of the argument', None
        return None, None

    def evap(s, t, ap, img):
        def sub(x):
            if x == ap: return C(s.AP)
            if x[0] == 'M':
                b, k = s.x.norm(x[1])
                if b == ap and 0 <= k and k + x[2] <= 24: return C(absint.sx(int.from_bytes(img[k:k + x[2]], 'little'), 8 * x[2]))
                raise KeyError(x)
            if x[0] == 'bytes': return C(sum(((absint.evalop(sub(y), None, 0) >> (8 * i)) & 255) << (8 * n) for n, (y, i) in enumerate(x[1:])))
            if x[0] == 'op': return x[:3] + tuple(sub(y) if isinstance(y, tuple) else y for y in x[3:])
            if x[0] == 'ins': return op('or', 64, op('and', 64, sub(x[1]), C(~(((1 << x[3]) - 1) << x[4]))), op('shl', 64, op('zext', 64, sub(x[2]), x[3]), C(x[4])))
            if x[0] == 'c': return x
            raise KeyError(x)
        r = absint.evalop(sub(t), None, 0)
        if r is None: raise KeyError(t)
        return r


def has(t, m):
    if t == m: return True
    return isinstance(t, tuple) and any(has(x, m) for x in t[1:])
