"""The helpers the code generator relies on (P28): each is interpreted by itself,
with the same machine, and compared with what the rest of the analysis assumes
of it (the contracts of emit.py)."""
import random
import absint, termval, x86
import fpnum as F
from fractions import Fraction
from absint import C, NULL
from emit import A0, T, fld, av
from termval import Val, Skip, Unknown, CMP
from x86 import Poison

O0 = 1 << 20      # what *ofs holds before the call


def node(path):
    n = A0
    for p in path.split('.') if path else (): n = av(n, 'Node', p)
    return n


class Help:
    def __init__(s, a): s.a = a

    def init(s, st):
        h = s.a.cf['help']
        for i, x in enumerate(s.a.cf.get('text', ())):
            if x is not None: st.mem[('a', i)] = ('str', x)
        if h in ('bexp', 'dopt', 'mopt'): st.mem[('a', 1)] = C(O0 if h != 'bexp' else 0)

    def judge(s, cf, tries=120, want=10):
        a = s.a
        a.x.apart = cf['help'] == 'copy'
        try: rets = a.run1(cf)
        finally: a.x.apart = False
        bad = {}
        f = getattr(s, 'h_' + cf['help'])
        for i, (st, rv) in enumerate(rets):
            a.n['paths'] += 1
            cc = {}
            v = Val(a, st, None, T, cc)
            if v.infeasible(): a.n['other'] += 1; continue
            th = a.threads(st)
            p = [t.poison for t in th if t.poison]
            if p: a.und[p[0]] = a.und.get(p[0], 0) + 1; a.n['undecided'] += 1; a.undex.setdefault(p[0], (st, th)); continue
            good, unk = 0, None
            for k in range(tries):
                v = Val(a, st, random.Random('%d %d' % (i, k)), T, cc)
                try: r = f(cf, st, rv, th, v)
                except Skip as e: continue
                except Unknown as e: unk = str(e); break
                if r: bad.setdefault(r, (st, th, v)); good = -1; break
                good += 1
                if good >= want: break
            if not unk and not good: unk = 'no choice of operands'
            if unk: a.und[unk] = a.und.get(unk, 0) + 1; a.n['undecided'] += 1; a.undex.setdefault(unk, (st, th))
            else: a.n['decided'] += 1
        return bad

    def path(s, st, v):
        for t, f in st.facts.items():
            if t[0] in ('a', 'bexp') or t[0] == 'av' and t[2] == 64: continue
            try: x = v.ev(t)
            except Unknown: continue
            if (x in f[1]) != (f[0] == 'in'): raise Skip('path')

    def h_bexp(s, cf, st, rv, th, v):
        n = A0
        want = v.truth(('V', n))
        s.path(st, v)
        if rv == NULL: return None
        fl = st.mem.get(('a', 1))
        if fl is None or fl[0] != 'c': raise Unknown('flip')
        if rv[0] not in ('a', 'av'): raise Unknown('result')
        k = v.kind(rv)
        if k not in CMP + ('LOGAND', 'LOGOR') and v.type(rv).name != 'bool': return 'a node is chosen that is neither a comparison nor a bool'
        return None if (v.truth(('V', rv)) != bool(fl[1] & 1)) == want else 'the node chosen has another truth value'

    def h_dopt(s, cf, st, rv, th, v):
        n = A0
        want = v.V(n) if cf['help'] == 'dopt' else v.A(n)
        s.path(st, v)
        r = s.a.static(cf, st, th)
        if r: return r
        if len(th) != 1: raise Unknown('branches')
        o = st.mem.get(('a', 1))
        if o is None: raise Unknown('offset')
        g = v.ev(th[0].regs.get('rax', ('junk', 'rax'))) + v.ev(o) - O0
        if (g - want) & termval.M64: return 'the address and the offset do not add up'
        r = s.a.covered(v, st, n, s.a.evals(th[0]), True)
        if r: return 'an operand is not evaluated' if r[0] == 'missing' else 'an operand is evaluated that is not'

    h_mopt = h_dopt

    def h_copy(s, cf, st, rv, th, v):
        """bytes [d, d+sz) become those at [s, s+sz), nothing else changes"""
        t, = th
        r = s.a.static(cf, st, th)
        if r: return r
        mem = {}
        src, dst, sz = cf['src'], cf['dst'], cf['args'][cf['szarg']]
        A = lambda x: v.ev(s.a.x.addr(x86.M(), x)) & termval.M64
        S, D = (A(src) if src else None), A(dst)
        if src and abs(S - D) < 64: raise Skip('overlap')
        if src: v.region(S, bytes(v.r.getrandbits(8) for _ in range(sz)))
        for e in t.eff:
            if e[0] != 'store': continue
            a = v.ev(e[1]) & termval.M64
            x = v.ev(e[3]) & ((1 << 8 * e[2]) - 1) if e[2] <= 8 else v.loadn(v.ev(e[3][1]) & termval.M64, e[2]) if e[3][0] == 'M' else 0 if e[3] in (C(0), ('fzero',)) else None
            if x is None: raise Unknown('wide store')
            for i, b in enumerate(x.to_bytes(e[2], 'little')): mem[a + i] = b
        want = {D + i: (v.byte(S + i) if src else 0) for i in range(sz)}
        if set(mem) - set(want): return 'memory outside the object is changed'
        if mem != want: return 'the bytes stored are wrong'


    def h_memop(s, cf, st, rv, th, v):
        n = A0
        if rv == C(0): return None
        if rv[0] != 'c':
            if not v.ev(rv) & 1: return None
        mp = cf['fn'] == 'is_memop_ptr'
        want = v.V(n)
        s.path(st, v)
        o, b = st.mem.get(('a', 1)), st.mem.get(('a', 2))
        if o is None or b is None: return 'no operand is given'
        txt = '%s(%s)' % (s.a.argtext(st, o if o[0] == 'str' else ('a', 1), 's', None)[0][1], s.a.argtext(st, b, 's', None)[0][1])
        try: a = s.a.x.addr(x86.M(), txt)
        except Poison as e: raise Unknown('operand %s: %s' % (txt, e))
        a = v.ev(a) & termval.M64
        if mp: return None if a == v.V(n) & termval.M64 else 'the operand is another address'
        t = v.type(n)
        return None if v.loadn(a, 10 if t.fw == 80 else t.size) == int.from_bytes(v.repr(want, t)[:10], 'little') else 'the operand is another object'

    # constants
    def load(s, st, ins, addr):
        """part of a floating-point object"""
        k, b = 0, addr
        while b[0] == 'x' and b[2][0] == 'c':
            k += b[2][1] * (absint.width(b[3]) // 8 if isinstance(b[3], str) else 8); b = b[1]
        while b[0] == 'f': b = b[1]
        v = st.mem.get(b)
        w = absint.width(ins.ty)
        if b[0] == 'al' and v is not None and not ins.ty[0] in 'fdx' and (v == ('a', 1) or v[0] in ('op', 'fc') and v[1][:2] == 'fp'):
            return ('fpart', v, fwid(v), k, w)
        return None

    def memcmp(s, st, args):
        x, y = st.mem.get(args[0]), st.mem.get(args[1])
        n = args[2]
        if x is None or y is None or n[0] != 'c': return None
        return [(q, C(0) if r != C(0) else C(1)) for q, r in s.a.fork(st, ('fpeq', x, y, n[1]), lambda q: None)]

    XS = [('f', 0, 0), ('f', 1, 0), ('f', 0, 1), ('f', 1, 1), ('n',), ('i', 0), ('i', 1), ('f', 0, 2), ('f', 1, '5/2'), ('f', 0, '1/3'), ('f', 0, 1 << 70), ('f', 0, '1/%d' % (1 << 200)), ('f', 1, '1/%d' % (1 << 1100)), ('f', 0, 12345678901234567891)]

    def h_fval(s, cf, st, rv, th, v):
        x = v.r.choice(s.XS)
        t = T[cf['fty']]
        if x[0] == 'f': x = F.rnd(Fraction(x[2]), 80, x[1])
        elif x[0] == 'n': x = F.NAN
        v.fpx = x
        width = fwid
        for (k, r) in st.user[1]:
            if k[0] == 'fpeq':
                w = width(k[1] if k[1][0] != 'fc' else k[2])
                m = (1 << 8 * k[3]) - 1
                e = lambda u: F.enc(v.fp(u, w), w) & m
                if (e(k[1]) == e(k[2])) != r: raise Skip('path')
        for u, f in st.facts.items():
            if u[0] == 'op' and u[1].startswith('fcmp'):
                w = next((width(z) for z in u[3:] if z[0] != 'fc'), 80)
                b = -1 if F.cmp(u[1].split()[-1], v.fp(u[3], w), v.fp(u[4], w)) else 0
                if (b in f[1]) != (f[0] == 'in'): raise Skip('path')
        r = s.a.static(cf, st, th)
        if r: return r
        q = th[0]
        want = F.rnd(sv(x), t.fw) if x[0] == 'f' and x[2] else x
        if x[0] == 'f' and x[2]: want = F.rnd(x[2], t.fw, x[1])
        if t.fw == 80:
            if not q.st: return 'no value is left on the floating-point stack'
            g = v.fp(q.st[0], 80)
        else: g = v.fp(q.regs.get('xmm0', ('junk', 'xmm0')), t.fw)
        return None if F.same(g, want) else 'the constant loaded is another'


def fwid(u): return {'float': 32, 'double': 64}.get(u[1].split()[-1], 80) if u[0] == 'op' else 80


def sv(x): return -x[2] if x[1] else x[2]


def fit(c):
    """types that go together"""
    ts, ks = c['types'], dict(c['kinds'], **{'': c['kind']})
    for p, k in ks.items():
        l = ts.get((p + '.' if p else '') + 'lhs')
        if k in ('ADD', 'SUB') and l not in ('ptr', 'arr'): return False
        if k == 'DEREF' and l not in ('ptr', 'arr'): return False
    return ks[''] != 'VAR' or ts[''] in ('ptr', 'arr')


L = []
for d in (1, 2, 3):
    ops = [('NOT', 'i32')] + [('CAST', t) for t in ('bool', 'i8', 'i32', 'f32')]
    leaves = [('EQ', 'i32'), ('LOGAND', 'i32'), ('LOGOR', 'i32'), ('LT', 'i32')] + [('VAR', t) for t in ('bool', 'i8', 'i64', 'f64', 'ptr')]
    def rec(k):
        if k == 0: return [[]]
        return [[o] + r for o in ops for r in rec(k - 1)]
    for ch in rec(d):
        if d == 3 and ch[0][0] == ch[1][0] == ch[2][0] == 'CAST': continue
        for lf in leaves:
            ks, ts = {}, {}
            ok = True
            for i, (k, t) in enumerate(ch + [lf]):
                p = '.'.join(['lhs'] * i)
                if p: ks[p] = k
                ts[p] = t
            p = '.'.join(['lhs'] * d)
            if lf[0] in ('EQ', 'LT'): ts[p + '.lhs'] = ts[p + '.rhs'] = 'i32' if lf[0] == 'EQ' else 'f64'
            if lf[0] in ('LOGAND', 'LOGOR'): ts[p + '.lhs'] = ts[p + '.rhs'] = 'bool'
            if any(ch[i][0] == 'NOT' and (ch + [lf])[i + 1][1] != 'bool' for i in range(d)): continue      # operands of ! are bool
            if lf[1] == 'ptr' and ch[-1][1] == 'f32' : continue
            L.append(dict(help='bexp', fn='bool_expr_opt', kind=ch[0][0], opt=1, types=ts, kinds=ks, args={}))


# gen_deref_opt: pointer expressions; gen_member_opt: members of members
def chains(ops, ends, dmax, mk):
    def rec(k):
        if k == 0: return [[]]
        return [[o] + r for o in ops for r in rec(k - 1)]
    for d in range(0, dmax + 1):
        for ch in rec(d):
            for e in ends:
                ks, ts, base = {}, {}, {}
                for i, (k, t) in enumerate(ch + [e]):
                    p = '.'.join(['lhs'] * i)
                    if p: ks[p] = k
                    ts[p] = t
                    if k in ('ADD', 'SUB'): ts[p + ('.' if p else '') + 'rhs'] = 'i64'
                    if k in ('DEREF', 'MEMBER') and i == d:
                        q = p + ('.' if p else '') + 'lhs'
                        ts[q] = 'ptr' if k == 'DEREF' else 'st'; ks[q] = 'VAR'
                mk(dict(kind=(ch + [e])[0][0], opt=1, types=ts, kinds=ks, args={}, base=base))


for opt in (1, 0):
    chains([('ADD', 'ptr'), ('SUB', 'ptr'), ('CAST', 'ptr'), ('DEREF', 'arr')], [('DEREF', 'ptr'), ('VAR', 'ptr'), ('VAR', 'arr'), ('FUNCALL', 'ptr'), ('VAR', 'i64'), ('VAR', 'i32'), ('VAR', 'u32'), ('MEMBER', 'arr')], 3,
           lambda c: L.append(dict(c, help='dopt', fn='gen_deref_opt', opt=opt)) if fit(c) else None)
    chains([('MEMBER', 'st')], [('VAR', 'st'), ('DEREF', 'st'), ('FUNCALL', 'st'), ('ASSIGN', 'st'), ('COND', 'st'), ('COMMA', 'st'), ('CHAIN', 'st')], 3,
           lambda c: L.append(dict(c, help='mopt', fn='gen_member_opt', opt=opt)))


for opt in (1, 0):
  for fn, rts in (('is_memop', ('i32', 'u8', 'i64', 'bool', 'ptr', 'f64', 'f80')), ('is_memop_ptr', ('ptr', 'i64', 'arr'))):
    for rt, ct in [(x, y) for x in rts for y in {'bool': ('bool', 'u8', 'i8'), 'u8': ('i8', 'bool'), 'i32': ('i32', 'u32', 'f32', 'i64'), 'i64': ('ptr', 'f64', 'i64', 'i32'), 'f64': ('i64', 'f64'), 'ptr': ('ptr', 'i64', 'u32'), 'f80': ('f80', 'f64')}.get(x, (x,))]:
        for mid in (('MEMBER',), ('CAST',), ('CAST', 'MEMBER'), ('MEMBER', 'MEMBER'), ('DEREF',), ('MEMBER', 'DEREF'), ('CAST', 'CAST'), ('ADDR', 'MEMBER'), ('ADDR',), ('DEREF', 'ADDR'), ('DEREF', 'ADD'), ('DEREF', 'ADD', 'ADDR'), ()):
            ks, ts = {}, {}
            good = True
            prev = rt
            for i, k in enumerate(mid + ('VAR',)):
                p = '.'.join(['lhs'] * i)
                if p: ks[p] = k
                ts[p] = prev
                if k == 'MEMBER': nx = 'st'
                elif k == 'CAST': nx = ct if i == 0 else prev; good &= prev not in ('arr', 'st')
                elif k == 'DEREF': nx = 'ptr'
                elif k == 'ADDR': good &= prev == 'ptr'; nx = 'i32' if i + 1 == len(mid) else 'i32'
                elif k == 'ADD': good &= prev == 'ptr'; nx = 'ptr'; ts[p + '.rhs'] = 'i64'; ks[p + '.rhs'] = 'NUM'
                prev = nx
            if 'CAST' not in mid and ct != rt and not (ct, rt) == ('i8', 'u8'): continue
            if good: L.append(dict(help='memop', fn=fn, kind=(mid + ('VAR',))[0], opt=opt, types=ts, kinds=ks, args={}))

for t, w, o in (('i32', 8, 0), ('i32', 16, 8), ('u8', 3, 0), ('u8', 8, 0), ('i64', 32, 0), ('bool', 1, 0), ('i32', 32, 0)):
    L.append(dict(help='memop', fn='is_memop', kind='MEMBER', opt=1, bf=True, bits={'': (w, o)}, types={'': t, 'lhs': 'st'}, kinds={'lhs': 'VAR'}, args={}))
    L.append(dict(help='memop', fn='is_memop', kind='CAST', opt=1, bf=False, types={'': t, 'lhs': t, 'lhs.lhs': 'st'}, bits={'lhs': (w, o)}, kinds={'lhs': 'MEMBER', 'lhs.lhs': 'VAR'}, args={}))
for t in ('f32', 'f64', 'f80'): L.append(dict(help='fval', fn='load_fval', kind=None, opt=1, types={}, kinds={}, args={}, fty=t))
for sz in list(range(1, 41)) + [48, 63, 64, 100]:
    L.append(dict(help='copy', fn='gen_mem_copy2', kind=None, opt=1, types={}, kinds={}, args={4: sz}, szarg=4, src='16(%rcx)', dst='-40(%rsi)', text=('16', '%rcx', '-40', '%rsi')))
    L.append(dict(help='copy', fn='gen_mem_zero', kind=None, opt=1, types={}, kinds={}, args={0: 24, 2: sz}, szarg=2, src=None, dst='24(%rcx)', text=(None, '%rcx')))
