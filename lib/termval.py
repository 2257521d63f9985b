"""Values of the terms of emit.py under a choice of the operands' types and
values (used to confirm that two terms that do not agree really differ)."""
import random
from fractions import Fraction
import fpnum as F
from absint import C, sx, NULL, leaves
from x86 import op


class Skip(Exception): pass        # the choice contradicts the path or is not defined in C
class Unknown(Exception): pass     # a term that has no interpretation here


ARITH = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'BITAND', 'BITOR', 'BITXOR')
SHIFT = ('SHL', 'SHR', 'SAR')
CMP = ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE')
M64 = (1 << 64) - 1
INTS = [0, 1, -1, 2, 3, -2, 5, 7, 8, 127, 128, 129, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        -(1 << 31), -(1 << 31) - 1, (1 << 33) - 1, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, -(1 << 63) + 1, M64, 0x123456789abcdef, -0x7123456789abcdef, 4095, 12345, -98765, 0x80, 0x8000, 0xff00, (1 << 53) + 1, (1 << 63) + (1 << 39) + 1]
FPS = [Fraction(x) for x in ('0', '1', '3', '5/2', '7', '1/4', '100', '12345', '16777217', '2147483648', '4294967295', '6000000000', '9007199254740993', '9223372036854775808', '9223372036854777856', '17000000000000000000')]


class Val:
    def __init__(s, a, st, rng, types, cc=None):
        s.cc = {} if cc is None else cc
        s.a, s.st, s.r, s.T = a, st, rng, types
        s.v, s.ty_, s.k, s.jk, s.fld, s.addr, s.reg, s.busy = {}, {}, {}, {}, {}, {}, [], set()
        s.preset = {}
        s.fpx = None
        for t, f in st.facts.items():
            if f == ('in', frozenset((-1,))) and t[0] == 'op' and t[1] == 'icmp eq' or f == ('in', frozenset((0,))) and t[0] == 'op' and t[1] == 'icmp ne':
                for x, y in ((t[3], t[4]), (t[4], t[3])):
                    while x[0] == 'op' and x[1] in ('sext', 'zext', 'trunc'): x = x[3]
                    if x[0] in ('V', 'E', 'cur') and x not in s.preset and y[0] != 'c' and x not in leaves(y) and not any(l[0] == 'phi' and l not in st.facts for l in leaves(y)): s.preset[x] = y

    def junk(s, k):
        v = s.jk.get(k)
        if v is None: v = s.jk[k] = s.r.getrandbits(64) | (1 << 40)
        return v

    # ---- types and kinds
    def facts_ok(s, t, v):
        f = s.st.facts.get(t)
        return f is None or (v in f[1]) == (f[0] == 'in')

    def kind(s, n):
        if n == s.a.root and s.a.cfg_kind is not None: return s.a.kn.get(s.a.cfg_kind)
        if n in s.k: return s.k[n]
        t = ('av', ('f', n, 'Node', 'kind'), 32)
        f = s.st.facts.get(t)
        k = None
        if n in s.a.cfg_kinds: k = s.a.cfg_kinds[n]
        elif f and f[0] == 'in': k = s.a.kn.get(s.r.choice(sorted(f[1])))
        s.k[n] = k
        return k

    def tyof(s, tt):
        if tt is None or tt == NULL: raise Unknown('no type')
        if tt[0] == 'T': return tt[1]
        t = s.a.cfg_types.get(tt) or s.ty_.get(tt)
        if t is None:
            if tt[0] == 'g': return s.gty(tt)
            if tt[0] != 'av': raise Unknown('type %s' % (tt,))
            if tt[1][2] == 'Obj' or tt[1][2] == 'Member': pass
            c = s.cands(tt)
            if not c: raise Skip('no type')
            t = s.ty_[tt] = s.r.choice(c)
        return t

    def gty(s, tt):
        n = {'ty_bool': 'bool', 'ty_int': 'i32', 'ty_uint': 'u32', 'ty_long': 'i64', 'ty_ulong': 'u64', 'ty_llong': 'i64', 'ty_ullong': 'u64', 'ty_short': 'i16', 'ty_ushort': 'u16', 'ty_char': 'i8', 'ty_uchar': 'u8'}.get(tt[1])
        if n is None: raise Unknown('type %s' % (tt,))
        return s.T[n]

    def cands(s, tt):
        c = s.cc.get(tt)
        if c is None: c = s.cc[tt] = [x for x in s.T.values() if x.name != 'pc' and s.tyfits(tt, x)]
        return c

    def tyfits(s, tt, x):
        for t, f in s.tyfacts(tt):
            old = s.ty_.get(tt)
            s.ty_[tt] = x
            try: v = s.ev(t)
            except Unknown: v = None
            finally:
                if old is None: del s.ty_[tt]
                else: s.ty_[tt] = old
            if v is not None and (v in f[1]) != (f[0] == 'in'): return False
        return s.tyfits1(tt, x)

    def tyfacts(s, tt):
        if 'tyfacts' not in s.cc:
            d = s.cc['tyfacts'] = {}
            for t, f in s.st.facts.items():
                if t[0] != 'op': continue
                ls = leaves(t)
                b = {l[1][1] for l in ls if l[0] == 'av' and l[1][2] == 'Type' and l[1][1] not in s.a.cfg_types}
                if len(b) == 1 and all(l[0] == 'c' or l[0] == 'av' and l[1][2] == 'Type' for l in ls): d.setdefault(next(iter(b)), []).append((t, f))
        return s.cc['tyfacts'].get(tt, ())

    def infeasible(s):
        """a type of the path that none of the types considered can be"""
        b = set(k for k in s.cc.get('tyfacts', ())) if s.tyfacts(None) is not None else set()
        for t in s.st.facts:
            if t[0] == 'av' and t[1][2] == 'Type' and t[1][1] not in s.a.cfg_types: b.add(t[1][1])
        b |= set(s.cc['tyfacts'])
        r = [x for x in b if not s.cands(x)]
        if r: return r
        for t, f in s.st.facts.items():
            if t[0] != 'op' and not (t[0] == 'av' and t[1][2] == 'Member'): continue
            i = s.interval0(t)
            if i is None: continue
            if f[0] == 'in':
                if all(v < i[0] or v > i[1] for v in f[1]): return [t]
            elif i[1] - i[0] <= 64 and all(v in f[1] for v in range(i[0], i[1] + 1)): return [t]
        for t, f in s.st.facts.items():
            if t[0] != 'av' or t[1][2:] != ('Node', 'kind') or f[0] != 'in': continue
            n = t[1][1]
            x = s.a.cfg_types.get(s.a.tyterm(n))
            if x is None or x.base or x.cls == 'agg': continue
            ks = {s.a.kn.get(k) for k in f[1]}
            for c in ('lhs', 'rhs') if ks <= set(ARITH) - {'SUB'} else ('lhs',) if ks <= set(SHIFT) | {'NEG', 'POS', 'BITNOT'} else ():
                if s.a.tyterm(s.kid(n, c)) not in s.a.cfg_types and not s.tyfits(s.a.tyterm(s.kid(n, c)), x): return [t]
        return []

    def interval(s, t):
        a = s.interval0(t)
        f = s.st.facts.get(t) if t[0] != 'c' else None
        if f and f[0] == 'in':
            b = min(f[1]), max(f[1])
            return b if a is None else (max(a[0], b[0]), min(a[1], b[1])) if a[1] >= b[0] and b[1] >= a[0] else b
        return a

    def interval0(s, t):
        """bounds of an integer term that hold for every choice of values"""
        if t[0] == 'c': return t[1], t[1]
        if t[0] == 'V' or t[0] == 'N':
            tt = s.a.tyterm(t[1]) if t[0] == 'V' else t[2]
            x = s.a.cfg_types.get(tt)
            if x is None or x.cls != 'gp' or x.base: return None
            if t[0] == 'N': return s.interval(t[1])
            if x.name == 'bool': return 0, 1
            if t[0] == 'V' and t[1] in s.a.cfg_bits and s.a.isbf(s.st, t[1]):
                w = s.a.cfg_bits[t[1]][0]
                if not x.uns: return -(1 << (w - 1)), (1 << (w - 1)) - 1
                return (0, (1 << w) - 1) if w < 64 else None
            if t[0] == 'V':
                k = s.kind(t[1]) if t[1] == s.a.root or t[1] in s.a.cfg_kinds else None
                if k in CMP + ('NOT', 'LOGAND', 'LOGOR'): return 0, 1
            if not x.uns: return -(1 << (x.bits - 1)), (1 << (x.bits - 1)) - 1
            return (0, (1 << x.bits) - 1) if x.bits < 64 else None
        if t[0] == 'av':
            if t[1][2:] == ('Type', 'is_unsigned'): return 0, 1
            if t[1][2:] == ('Member', 'offset'): return 0, (1 << 31) - 1
            return None
        if t[0] != 'op': return None
        o, w = t[1], t[2]
        if o in ('zext', 'sext', 'trunc'):
            k = w if o == 'trunc' else t[4]
            a = s.interval(t[3])
            if a is not None:
                if o != 'zext' and -(1 << (k - 1)) <= a[0] and a[1] < 1 << (k - 1): return a
                if o == 'zext' and 0 <= a[0] and a[1] < 1 << k: return a
                if o == 'zext' and -(1 << (k - 1)) <= a[0] and a[1] < 0: return a[0] + (1 << k), a[1] + (1 << k)
            if o == 'sext': return -(1 << (k - 1)), (1 << (k - 1)) - 1
            return (0, (1 << k) - 1) if o == 'zext' and k < 64 else None
        if o.startswith('icmp '):
            p = o[5:]
            x, y = t[3], t[4]
            if p in ('eq', 'ne'):
                for u, v in ((x, y), (y, x)):
                    if v[0] == 'op' and v[1] in ('sext', 'zext') and v[3] == ('op', 'trunc', v[4], u):
                        a = s.interval(u)
                        if a is None: continue
                        k = v[4]
                        lo, hi = (-(1 << (k - 1)), (1 << (k - 1)) - 1) if v[1] == 'sext' else (0, (1 << k) - 1)
                        if lo <= a[0] and a[1] <= hi: return ((-1, -1), (0, 0))[p == 'ne']
                        if a[1] < lo or a[0] > hi: return ((0, 0), (-1, -1))[p == 'ne']
            a, b = s.interval(x), s.interval(y)
            if a is None or b is None: return -1, 0
            if p[0] == 'u' and (a[0] < 0 or b[0] < 0): return -1, 0
            p = p.lstrip('u') if p[0] == 'u' else p[1:] if p[0] == 's' else p
            T_, F_ = (-1, -1), (0, 0)
            if p == 'eq': return F_ if a[1] < b[0] or b[1] < a[0] else T_ if a == b and a[0] == a[1] else (-1, 0)
            if p == 'ne': return T_ if a[1] < b[0] or b[1] < a[0] else F_ if a == b and a[0] == a[1] else (-1, 0)
            if p == 'lt': return T_ if a[1] < b[0] else F_ if a[0] >= b[1] else (-1, 0)
            if p == 'le': return T_ if a[1] <= b[0] else F_ if a[0] > b[1] else (-1, 0)
            if p == 'gt': return T_ if a[0] > b[1] else F_ if a[1] <= b[0] else (-1, 0)
            if p == 'ge': return T_ if a[0] >= b[1] else F_ if a[1] < b[0] else (-1, 0)
        if o == 'shl':
            a, b = s.interval(t[3]), s.interval(t[4])
            if a and b and a[0] == a[1] and b[0] == b[1] and 0 <= b[0] < w: a = sx(a[0] << b[0], w); return a, a
        if o == 'and':
            for u, v in ((t[3], t[4]), (t[4], t[3])):
                if v[0] == 'c' and v[1] >= 0: return 0, v[1]
        return None

    def tyfits1(s, tt, x):
        for f, v, w in (('kind', x.kind, 32), ('size', x.size, 64), ('is_unsigned', int(x.uns), 8), ('is_atomic', 0, 8)):
            if not s.facts_ok(('av', ('f', tt, 'Type', f), w), v): return False
        b = s.st.facts.get(('av', ('f', tt, 'Type', 'base'), 64))
        if b is not None and (b == ('nin', frozenset((0,)))) != x.base: return False
        return True

    def type(s, n):
        tt = s.a.tyterm(n)
        if tt not in s.ty_ and tt not in s.a.cfg_types and s.kind(n) in CMP + ('LOGAND', 'LOGOR', 'NOT'): s.settype(n, s.T['i32'])
        return s.tyof(tt)

    def tyknown(s, n):
        tt = s.a.tyterm(n)
        return tt in s.a.cfg_types or tt in s.ty_

    def want(s, x):
        if not x: raise Skip('type')

    def settype(s, n, t):
        tt = s.a.tyterm(n)
        c = s.a.cfg_types.get(tt) or s.ty_.get(tt)
        if c is None:
            if not s.tyfits(tt, t): raise Skip('type')
            s.ty_[tt] = t
        elif c is not t and (c.cls, c.size, c.uns) != (t.cls, t.size, t.uns): raise Skip('types')

    # ---- C
    def canon(s, v, t):
        if t.cls == 'gp' and not t.base: return sx(v, t.bits) if not t.uns else v & ((1 << t.bits) - 1)
        return v & M64

    def conv(s, v, f, t):
        if t.cls == 'agg': return v
        if t.name == 'bool':
            if f.fw: return int(not (v[0] == 'f' and v[2] == 0))
            return int(v != 0)
        if t.fw:
            if f.fw: return F.rnd(v, t.fw)
            return F.rnd(Fraction(v), t.fw)
        if f.fw:
            n = F.toint(v)
            if n is None: raise Skip('conversion')
            if s.canon(n, t) != n: raise Skip('conversion out of range')
            return n
        return s.canon(v, t)

    def promote(s, t, m=None):
        if m is not None and m[0] in ('cur', 'curv') and m[2] not in (None, NULL):
            w = s.ev(('av', ('f', m[2], 'Member', 'bit_width'), s.a.fieldw('Member', 'bit_width')))
            if w == 32 and t.uns: return s.T['u32']
            return s.T['i32'] if w <= 32 else t
        if t.cls == 'gp' and not t.base and t.size < 4: return s.T['i32']
        return t

    def uac(s, a, b, ma=None, mb=None):
        for t in ('f80', 'f64', 'f32'):
            if a is s.T[t] or b is s.T[t]: return s.T[t]
        if a.base: return s.T['ptr']
        if b.base: return s.T['ptr']
        a, b = s.promote(a, ma), s.promote(b, mb)
        if a.size != b.size: return a if a.size > b.size else b
        return a if a.uns else b

    def apply(s, K, t, a, b):
        """operator K on two operands of type t"""
        if t.fw:
            w = t.fw
            if K in ('ADD', 'SUB', 'MUL', 'DIV'): return getattr(F, K.lower())(a, b, w)
            if K in CMP: return int(F.cmp({'EQ': 'oeq', 'NE': 'une', 'LT': 'olt', 'LE': 'ole', 'GT': 'ogt', 'GE': 'oge'}[K], a, b))
            raise Skip('operator')
        if K in CMP: return int({'EQ': a == b, 'NE': a != b, 'LT': a < b, 'LE': a <= b, 'GT': a > b, 'GE': a >= b}[K])
        if K in ('DIV', 'MOD'):
            if b == 0: raise Skip('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            if s.canon(q, t) != q: raise Skip('overflow')
            return q if K == 'DIV' else a - q * b
        r = {'ADD': lambda: a + b, 'SUB': lambda: a - b, 'MUL': lambda: a * b, 'BITAND': lambda: a & b, 'BITOR': lambda: a | b, 'BITXOR': lambda: a ^ b}[K]()
        return s.canon(r, t)

    def shift(s, K, t, a, b):
        if not 0 <= b < t.bits: raise Skip('shift count')
        if K == 'SHL': return s.canon(a << b, t)
        if K == 'SHR': return s.canon((a & ((1 << t.bits) - 1)) >> b, t)
        return s.canon(sx(a, t.bits) >> b, t)

    def unary(s, K, t, a):
        if K == 'POS': return a
        if K == 'NEG': return F.neg(a) if t.fw else s.canon(-a, t)
        if K == 'BITNOT': return s.canon(~a, t)
        raise Unknown(K)

    # ---- meanings: (value, type)
    def mtype(s, m):
        k = m[0]
        if k == 'V': return s.type(m[1])
        if k == 'N': return s.tyof(m[2])
        if k in ('cur', 'curv'): return s.tyof(m[1])
        if k == 'E':
            K = m[1]
            if K == 'ADDR': return s.T['ptr']
            if K == 'OPND':
                if m[2] in ARITH or m[2] in CMP: return s.uac(s.mtype(m[5]), s.mtype(m[6]), m[5], m[6])
                return s.promote(s.mtype(m[4]), m[4]) if m[3] == 'lhs' and m[2] in SHIFT + ('NEG', 'POS', 'BITNOT') else s.mtype(m[4])
            if K == 'CAST': return s.tyof(m[2])
            if K in CMP or K in ('NOT', 'LOGAND', 'LOGOR'): return s.T['i32']
            if K in SHIFT or K in ('NEG', 'POS', 'BITNOT'): return s.promote(s.mtype(m[3]), m[3])
            if K in ARITH: return s.uac(s.mtype(m[3]), s.mtype(m[4]), m[3], m[4])
        raise Unknown('type of %s' % (m[:2],))

    def mval(s, m):
        k = m[0]
        if k == 'V': return s.V(m[1])
        if k == 'N':
            t = s.tyof(m[2])
            v = s.ev(m[1])
            return s.conv(v, s.T['i64'], t)
        if k == 'curv':
            t = s.tyof(m[1])
            if t.fw: return s.fp(m[5] if t.cls == 'ld' else m[4], t.fw)
            return s.canon(s.ev(m[3]), t) if t.size == 8 or s.canon(s.ev(m[3]), t) == (sx(s.ev(m[3]), 32) if not t.uns else s.ev(m[3]) & 0xffffffff) else s.junk(('notcanon', m[3]))
        if k == 'E':
            K = m[1]
            if K == 'ADDR': return s.ev(m[3]) & M64
            if K == 'OPND':
                t = s.mtype(m)
                return s.conv(s.mval(m[4]), s.mtype(m[4]), s.T['u64'] if t.base else t)
            if K == 'CAST': return s.conv(s.mval(m[3]), s.mtype(m[3]), s.tyof(m[2]))
            if K in ARITH or K in CMP:
                ta, tb = s.mtype(m[3]), s.mtype(m[4])
                t = s.uac(ta, tb, m[3], m[4])
                if t.base and K in ARITH: return s.apply(K, s.T['u64'], s.conv(s.mval(m[3]), ta, s.T['u64']), s.conv(s.mval(m[4]), tb, s.T['u64']))
                return s.apply(K, t, s.conv(s.mval(m[3]), ta, t), s.conv(s.mval(m[4]), tb, t))
            if K in SHIFT:
                t = s.promote(s.mtype(m[3]), m[3])
                return s.shift(K, t, s.conv(s.mval(m[3]), s.mtype(m[3]), t), s.mval(m[4]))
            if K in ('NEG', 'BITNOT', 'POS'):
                t = s.promote(s.mtype(m[3]), m[3])
                return s.unary(K, t, s.conv(s.mval(m[3]), s.mtype(m[3]), t))
            if K == 'NOT': return int(not s.truth(m[3]))
        raise Unknown('value of %s' % (m[:2],))

    def truth(s, m):
        v = s.mval(m)
        if isinstance(v, tuple): return not (v[0] == 'f' and v[2] == 0)
        return v != 0

    # ---- nodes
    def kid(s, n, f='lhs'): return ('av', ('f', n, 'Node', f), 64)

    def V(s, n):
        if n in s.v: return s.v[n]
        if n in s.busy: raise Unknown('cycle')
        s.busy.add(n)
        try: v = s.V_(n)
        finally: s.busy.discard(n)
        s.v[n] = v
        return v

    def V_(s, n):
        p = s.preset.get(('V', n))
        t = s.type(n)
        e = s.a.bexp_of(s.st, n)
        if e is not None:
            flip = s.a.known(s.st, ('bflip', n))
            return int((s.truth(('V', e))) != flip)
        K = s.kind(n)
        L, R = s.kid(n), s.kid(n, 'rhs')
        if K in ARITH:
            if t.base:
                s.T  # pointer arithmetic: one operand is the pointer
                a, b = s.conv(s.V(L), s.type(L), s.T['u64']) if not s.type(L).fw else None, s.conv(s.V(R), s.type(R), s.T['u64']) if not s.type(R).fw else None
                if a is None or b is None or K not in ('ADD', 'SUB'): raise Skip('types')
                return s.apply(K, s.T['u64'], a, b)
            if K == 'SUB' and s.a.cfg_ptrsub and n == s.a.root: return s.canon(s.V(L) - s.V(R), t)
            s.settype(L, t); s.settype(R, t)
            return s.apply(K, t, s.V(L), s.V(R))
        if K in SHIFT:
            s.settype(L, t)
            if K == 'SHR' and not t.uns or K == 'SAR' and t.uns:
                if n != s.a.root: raise Skip('shift')
            return s.shift(K, t, s.V(L), s.V(R))
        if K in CMP:
            u = s.type(L)
            if u.cls == 'agg': raise Skip('types')
            s.settype(R, u)
            return s.apply(K, u, s.V(L), s.V(R))
        if K in ('NEG', 'POS', 'BITNOT'):
            s.settype(L, t)
            return s.unary(K, t, s.V(L))
        if K == 'NOT': return int(not s.truth(('V', L)))
        if K == 'LOGAND': return int(s.truth(('V', L)) and s.truth(('V', R)))
        if K == 'LOGOR': return int(s.truth(('V', L)) or s.truth(('V', R)))
        if K == 'CAST':
            u = s.type(L)
            if u.cls == 'agg' and (u.name != 'arr' or t.fw): raise Skip('types')
            if u.base and t.fw or t.base and u.fw or t.cls == 'agg': raise Skip('types')
            return s.conv(s.V(L), u, t)
        if K == 'COND':
            c = s.truth(('V', s.kid(n, 'cond')))
            x = s.kid(n, 'then' if c else 'els')
            s.settype(x, t)
            return s.V(x)
        if K in ('COMMA', 'CHAIN'):
            if s.type(R).cls == 'agg' and t.name == 'ptr': pass
            else: s.settype(R, t)
            return s.V(R)
        if K == 'ADDR': return s.A(L) & M64
        if K == 'ASSIGN':
            s.settype(L, t); s.settype(R, t)
            return s.bfconv(L, s.V(R))
        if K == 'NUM' and not t.fw:
            x = ('av', ('f', n, 'Node', 'val'), 64)
            if x in s.fld: return s.fld[x]
        if K in ('EXCH',):
            if s.type(R).name != t.name: raise Skip('types')
            s.V(L)
            return s.loadval(s.V(L), t)
        if K == 'CAS':
            t = s.a.cfg_base
            a, o = s.V(s.kid(n, 'cas_addr')), s.V(s.kid(n, 'cas_old'))
            x = s.r.getrandbits(8 * t.size).to_bytes(t.size, 'little')
            y = x if s.r.random() < .5 else s.r.getrandbits(8 * t.size).to_bytes(t.size, 'little')
            s.region(a, x); s.region(o, y)
            return int(x == y)
        # an opaque operand
        if p is not None and not t.fw:
            v = s.ev(p)
            if s.canon(v, t) != v and sx(s.canon(v, t), 64) != v: raise Skip('value')
            v = s.canon(v, t)
        elif t.cls == 'agg':
            return s.A(n)
        elif t.fw:
            x = s.r.random()
            if x < .1: v = F.NAN
            elif x < .15: v = ('i', s.r.getrandbits(1))
            else: v = F.rnd(s.r.choice(FPS), t.fw); v = ('f', s.r.getrandbits(1), v[2])
        elif t.base:
            v = s.r.getrandbits(31) | 0x1000000 if s.a.small(s.st, n) else s.r.getrandbits(46) | (1 << 40)
            x = s.r.random()
            if x < .08: v = 0
            elif x < .3 and s.pool(n): v = s.r.choice(s.pool(n)) & M64
        elif t.name == 'bool': v = s.r.getrandbits(1)
        else:
            x = s.r.random()
            p = s.pool(n) if x < .3 else ()
            v = s.canon(s.r.choice(p) if p else s.r.choice(INTS) if x < .8 else s.r.getrandbits(64), t)
        if K == 'MEMBER' and s.a.isbf(s.st, n):
            w, o = s.bf(n)
            v = s.bfconv(n, v)
            unit = s.r.getrandbits(8 * t.size)
            unit = unit & ~(((1 << w) - 1) << o) | ((v & ((1 << w) - 1)) << o)
            s.v[n] = v
            s.region(s.A(n), unit.to_bytes(t.size, 'little'))
            return v
        if K not in ('NUM', 'FUNCALL', 'STMT_EXPR', 'CAS', 'EXCH', 'VA_ARG'):
            s.v[n] = v
            s.region(s.A(n), s.repr(v, t))
        return v

    def pool(s, n):
        """values the path compares with"""
        p = s.cc.get('pool')
        if p is None:
            p = set()
            for t, f in s.st.facts.items():
                ls = leaves(t) if t[0] == 'op' else (t,)
                if not any(l[0] in ('V', 'E', 'cur', 'curv') for l in ls): continue
                p |= set(f[1])
                for l in ls:
                    if l[0] == 'c': p |= {l[1], l[1] + 1, l[1] - 1}
                if any(isinstance(l, tuple) and l[0] == 'op' for l in t): p |= {-1, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, 0x100000000, 0x123456789ab}
            p = s.cc['pool'] = sorted(p)
        return p

    def bf(s, n):
        """width and offset of a bit-field"""
        m = ('av', ('f', n, 'Node', 'member'), 64)
        t = s.type(n)
        W = ('av', ('f', m, 'Member', 'bit_width'), s.a.fieldw('Member', 'bit_width'))
        O = ('av', ('f', m, 'Member', 'bit_offset'), s.a.fieldw('Member', 'bit_offset'))
        if W in s.fld: return s.fld[W], s.fld[O]
        if n in s.a.cfg_bits: s.fld[W], s.fld[O] = s.a.cfg_bits[n]; return s.a.cfg_bits[n]
        c = []
        if t.name == 'bool': ws = [1]
        else: ws = [1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64]
        for w in ws:
            if w > t.bits or not s.facts_ok(W, w): continue
            for o in (0, 1, 3, 5, 7, 8, 9, 16, 24, 31, 32, t.bits - w, t.bits - w - 1):
                if 0 <= o <= t.bits - w and s.facts_ok(O, o):
                    c.append((w, o))
        if not c: raise Skip('bit-field')
        s.fld[W], s.fld[O] = s.r.choice(c)
        return s.fld[W], s.fld[O]

    def bfconv(s, n, v):
        if s.kind(n) == 'MEMBER' and s.a.isbf(s.st, n):
            w, o = s.bf(n)
            if s.type(n).name == 'bool': return v & 1
            return v & ((1 << w) - 1) if s.type(n).uns else sx(v, w)
        return v

    def repr(s, v, t):
        if t.fw: return F.enc(v, t.fw).to_bytes(t.fw // 8, 'little') + (b'' if t.fw < 80 else s.junk(('pad', v)).to_bytes(8, 'little')[:6])
        if t.cls == 'agg': raise Unknown('representation')
        return (v & ((1 << t.bits) - 1)).to_bytes(t.size, 'little')

    def A(s, n):
        if n in s.addr: return s.addr[n]
        K = s.kind(n)
        t = s.type(n)
        L = s.kid(n)
        if K == 'DEREF':
            if s.tyknown(L): s.want(s.type(L).base)
            else: s.settype(L, s.T['ptr'])
            a = s.V(L)
        elif K == 'MEMBER':
            if s.tyknown(L): s.want(s.type(L).name == 'st')
            else: s.settype(L, s.T['st'])
            a = (s.A(L) + s.ev(('av', ('f', ('av', ('f', n, 'Node', 'member'), 64), 'Member', 'offset'), s.a.fieldw('Member', 'offset')))) & M64
        elif K in ('COMMA', 'CHAIN'):
            s.settype(s.kid(n, 'rhs'), t)
            a = s.A(s.kid(n, 'rhs'))
        elif K in ('ASSIGN', 'COND') and t.cls == 'agg': a = s.V(n)
        else: a = s.r.getrandbits(30) | 0x10000000
        s.addr[n] = a
        return a

    def region(s, a, b):
        for x, y in s.reg:
            if x < a + len(b) and a < x + len(y):
                if x == a and y == b: return
                raise Skip('overlap')
        if not 0 < a < M64 - 64: raise Skip('address')
        s.reg.append((a, b))

    def byte(s, a):
        for x, y in s.reg:
            if x <= a < x + len(y): return y[a - x]
        return s.junk(('mem', a)) & 255

    def loadn(s, a, sz): return int.from_bytes(bytes(s.byte((a + i) & M64) for i in range(sz)), 'little')

    def loadval(s, a, t):
        if not any(x <= a < x + len(y) for x, y in s.reg):
            s.region(a, bytes((s.r.getrandbits(1),)) if t.name == 'bool' else bytes(s.r.getrandbits(8) for _ in range(t.size)) if not t.fw else s.repr(F.rnd(s.r.choice(FPS), t.fw), t))
        n = s.loadn(a, t.size if t.fw != 80 else 10)
        if t.name == 'bool': return n & 1
        return F.dec(n, t.fw) if t.fw else s.canon(n, t)

    # ---- integer terms
    def ev(s, t):
        k = t[0]
        if k == 'c': return t[1]
        if k == 'op':
            v = s.evop(t)
            if v is None: raise Unknown(t[1])
            return v
        if k in ('V', 'E', 'N', 'curv'):
            v = s.mval(t)
            if isinstance(v, tuple): return F.enc(v, s.mtype(t).fw) & M64
            return sx(v, 64)
        if k == 'cur': raise Unknown('current value')
        if k == 'reg':
            m = t[1]
            if m[0] == 'curv' and False: pass
            ty = s.mtype(m)
            v = s.mval(m)
            if isinstance(v, tuple): return s.junk(t)
            if ty.size == 8 or ty.cls == 'agg' or ty.name == 'bool' or (m[1] if m[0] == 'E' else s.kind(m[1]) if m[0] == 'V' else None) in CMP + ('NOT', 'LOGAND', 'LOGOR'): return v
            return (v & 0xffffffff) | (s.junk(t) << 32 & M64)
        if k == 'A':
            x = t[1]
            if x[0] == 'E': return s.junk(t)
            if x[0] == 'obj': return s.objaddr(x[1])
            if x[0] in ('V', 'cur', 'curv', 'N'): x = x[1]
            return s.A(x)
        if k == 'MA':
            m = t[1]
            if m[0] == 'V':
                n = m[1]
                s.V(n)
                while s.kind(n) == 'CAST':
                    t = s.type(n)
                    L = s.kid(n)
                    s.want(s.type(L).size == t.size and t.cls == 'gp' and s.type(L).cls == 'gp' and t.name != 'bool' and not s.a.isbf(s.st, L) and s.kind(L) != 'NUM')
                    n = L
                return s.A(n)
            raise Unknown('memory operand')
        if k == 'PA':
            m = t[1]
            if m[0] == 'A': return s.ev(m)
            return s.mval(m)
        if k == 'M':
            a = s.ev(t[1]) & M64
            return s.loadn(a, t[2])
        if k == 'ins':
            o, v, w, sh = s.ev(t[1]), s.ev(t[2]), t[3], t[4]
            m = ((1 << w) - 1) << sh
            return o & ~m | (v << sh & m)
        if k == 'junk': return s.junk(t)
        if k == 'bits': return F.enc(s.fp(t[1], t[2]), t[2])
        if k == 'fpart': return F.enc(s.fp(t[1], t[2]), t[2]) >> 8 * t[3] & ((1 << t[4]) - 1)
        if k == 'rounded':
            n = F.near(s.fp(t[1], 80))
            return n if n is not None else 1 << 63
        if k == 'delta':
            f = s.st.facts.get(t)
            return s.jk.setdefault(t, s.r.choice(sorted(f[1]) if f and f[0] == 'in' else (0, 0, 1, 8, -8, 100, 1 << 28) + ((1 << 36, -(1 << 35)) if t[1][0] == 'V' else ())))
        if k == 'phi': return s.phi(t)
        if k in ('rbp', 'fs', 'sp'): return s.junk(t)
        if k == 'vofs': return s.jk.setdefault(t, s.r.choice((0, 4, 8, 24, 100)))
        if k in ('sreg', 'sym'): return s.base(t)
        if k == 'tlsaddr': return s.objaddr(s.varof(t[1][1]))
        if k == 'signof': return -1 if sx(s.ev(t[1]), t[2]) < 0 else 0
        if k == 'av': return s.field(t)
        if k == 'null': return 0
        if k == 'a' and s.fpx is not None and t[1] == 1: return F.enc(s.fpx, 80) & M64
        if k == 'a':
            f = s.st.facts.get(t)
            if f and f[0] == 'in' and len(f[1]) == 1: return next(iter(f[1]))
        if k == 'fbits': return s.ev(t[2])
        if k == 'FV': return s.junk(t)
        raise Unknown('term %s' % k)

    def phi(s, t):
        """a loop variable: a value that satisfies what the path says of it"""
        if t in s.fld: return s.fld[t]
        f = s.st.facts.get(t)
        if f and f[0] == 'in' and len(f[1]) == 1: return next(iter(f[1]))
        fs = [(u, g) for u, g in s.st.facts.items() if u[0] == 'op' and t in leaves(u)]
        if not any(u[1] == 'icmp eq' and g == ('in', frozenset((-1,))) or u[1] == 'icmp ne' and g == ('in', frozenset((0,))) for u, g in fs): raise Unknown('loop variable')
        for x in range(-1, 65):
            if f and (x in f[1]) != (f[0] == 'in'): continue
            s.fld[t] = x
            if all((s.ev(u) in g[1]) == (g[0] == 'in') for u, g in fs): return x
        del s.fld[t]
        raise Skip('loop variable')

    def varof(s, t):
        for l in leaves(t) if t[0] == 'op' else (t,):
            if l[0] == 'av' and l[1][2] == 'Obj': return l[1][1]
            if l[0] == 'mvar': return l
        raise Unknown('symbol')

    def objaddr(s, v):
        if v[0] == 'mvar': return s.A(v[1]) - s.ev(('vofs', v[1], 32))
        for n in s.a.cfg_vars:
            if ('av', ('f', n, 'Node', 'var'), 64) == v: return s.A(n)
        return s.junk(('obj', v))

    def plain(s, v):
        """the path knows that a variable is no thread-local one"""
        no = ('in', frozenset((0,)))
        if s.st.facts.get(('av', ('f', v, 'Obj', 'is_tls'), 8)) == no: return True
        f = s.st.facts.get(('av', ('f', ('av', ('f', v, 'Obj', 'ty'), 64), 'Type', 'kind'), 32))
        return f == ('in', frozenset((s.a.m.E('TY_FUNC'),)))

    def base(s, t):
        v = s.varof(t[1])
        a = s.objaddr(v)
        if t[0] == 'sym':
            suf = t[2] if len(t) > 2 else ''
            if suf == '@GOTPCREL' or suf == '@gottpoff':
                p = s.junk(t)
                if ('got', t) not in s.jk:
                    s.jk[('got', t)] = 1
                    x = a if suf == '@GOTPCREL' else (a - s.junk(('fs',))) & M64
                    s.region(p, x.to_bytes(8, 'little'))
                return p
            if suf == '@tpoff': return a - s.junk(('fs',))
            if suf: raise Unknown(suf)
            if not s.plain(v): return s.junk(('notplain', v))
            return a
        ofs = s.ev(('av', ('f', v, 'Obj', 'ofs'), s.a.fieldw('Obj', 'ofs')))
        vla = s.st.facts.get(('av', ('f', ('av', ('f', v, 'Obj', 'ty'), 64), 'Type', 'kind'), 32))
        if vla == ('in', frozenset((s.a.m.E('TY_VLA'),))):
            p = s.junk(('vla', v)) & 0xffffffff
            if ('got', v) not in s.jk:
                s.jk[('got', v)] = 1
                s.region(p, a.to_bytes(8, 'little'))
            return p - ofs
        return a - ofs

    def field(s, t):
        b, st, f = t[1][1:]
        w = t[2]
        if st == 'Type':
            x = s.tyof(b)
            if f == 'size': return x.size
            if f == 'kind': return x.kind
            if f == 'is_unsigned': return int(x.uns)
            if f == 'is_atomic': return 0
            raise Unknown('Type.' + f)
        if st == 'Node':
            if f == 'kind':
                k = s.kind(b)
                if k is None: raise Unknown('kind')
                return s.a.nk[k]
            if f == 'val' and s.kind(b) == 'NUM':
                t_ = s.type(b)
                if t_.fw: raise Unknown('val')
                if t not in s.fld:
                    s.fld[t] = s.canon(s.r.choice(INTS), t_)
                return sx(s.fld[t], 64)
            if f in ('is_definition',): pass
            raise Unknown('Node.' + f)
        if st == 'Member':
            n = b[1][1] if b[0] == 'av' else None
            if f in ('bit_width', 'bit_offset') and n is not None:
                s.bf(n)
                return s.fld[t]
            if f == 'offset':
                if t not in s.fld: s.fld[t] = s.r.choice((0, 1, 2, 4, 8, 16, 40))
                return s.fld[t]
        if st == 'Obj' and f == 'ofs':
            if t not in s.fld: s.fld[t] = s.r.choice((-8, -16, -40, 16, 0))
            return s.fld[t]
        fct = s.st.facts.get(t)
        if fct and fct[0] == 'in' and len(fct[1]) == 1: return next(iter(fct[1]))
        raise Unknown('%s.%s' % (st, f))

    def evop(s, t):
        o, w = t[1], t[2]
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcvt', 'i2f'): return F.enc(s.fp(t, w), w) & M64
        if o[:7] == 'fptrunc': ow = {'float': 32}.get(o.split()[-1], 64); return F.enc(s.fp(t, ow), ow) & M64
        if o == 'f2i':
            n = F.toint(s.fp(t[4], t[3]))
            if n is None or sx(n, w) != n: return -(1 << (w - 1))
            return n
        if o.startswith('fcmp '): return -1 if F.cmp(o[5:], s.fp(t[3], w), s.fp(t[4], w)) else 0
        if o == 'select':
            c = s.ev(t[3])
            return s.ev(t[4]) if c & 1 else s.ev(t[5])
        a = s.ev(t[3])
        if o == 'zext': return a & ((1 << t[4]) - 1)
        if o == 'sext': return sx(a, t[4])
        if o == 'trunc': return sx(a, w)
        b = s.ev(t[4])
        if o.startswith('icmp '):
            p = o[5:]
            if p[0] == 'u': a, b = a & ((1 << w) - 1), b & ((1 << w) - 1); p = p[1:]
            else:
                a, b = sx(a, w), sx(b, w)
                if p[0] == 's': p = p[1:]
            return -1 if {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p] else 0
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[o]()
            return sx(r, w)
        if o in ('shl', 'lshr', 'ashr'):
            b &= 63 if w == 64 else 31
            if o == 'shl': return sx(a << b, w)
            if o == 'lshr': return sx((a & ((1 << w) - 1)) >> b, w)
            return sx(a, w) >> b
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            if o[0] == 'u': a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
            else: a, b = sx(a, w), sx(b, w)
            if b == 0: raise Skip('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return sx(q if o[1:] == 'div' else a - q * b, w)
        return None

    # ---- floating-point terms
    def fp(s, t, w):
        k = t[0]
        if k == 'ss': return s.fp(t[1], 32) if w == 32 else F.dec(F.enc(s.fp(t[1], 32), 32) | s.junk(t) << 32, w)
        if k in ('V', 'E', 'N', 'curv'):
            ty = s.mtype(t)
            if ty.fw == w: return s.mval(t)
            if ty.fw in (32, 64) and w in (32, 64):
                return F.dec(F.enc(s.mval(t), ty.fw) | (s.junk(t) << 32 if w == 64 else 0), w)
            return F.rnd(Fraction(s.junk(('fpj', t)) & 0xffffff), w)
        if k == 'M': return F.dec(s.loadn(s.ev(t[1]) & M64, w // 8), w)
        if k == 'cat' and t[2] == 8: return F.dec(s.ev(t[1]) & M64 | (s.ev(t[3]) & 0xffff) << 64, w)
        if k == 'fzero': return F.zero()
        if k == 'a' and s.fpx is not None: return s.fpx
        if k == 'fc': return F.rnd(Fraction(t[1]), w, 1 if str(t[1]).startswith('-') else 0)
        if k == 'FV':
            if t[1] == ('fc', 1): return F.rnd(Fraction(1), w)
            if t[1][0] == 'a': return F.rnd(s.fpx, w)
            if t[1][0] == 'av' and t[1][1][2] == 'Node': return F.rnd(s.V(t[1][1][1]), w)
            raise Unknown('constant')
        if k == 'fbits': return F.dec(s.ev(t[2]) & ((1 << t[1]) - 1) | (0 if t[1] >= w else s.junk(t) << 32), w)
        if k == 'op':
            o, ow = t[1], t[2]
            if o in ('fadd', 'fsub', 'fmul', 'fdiv'): r = getattr(F, o[1:])(s.fp(t[3], ow), s.fp(t[4], ow), ow)
            elif o == 'fneg': r = F.neg(s.fp(t[3], ow))
            elif o == 'fcvt': r = F.rnd(s.fp(t[3][2], t[3][1]), ow)
            elif o == 'i2f': r = F.rnd(Fraction(sx(s.ev(t[3]), 64)), ow)
            elif o[:7] in ('fptrunc', 'fpext f', 'fpext d', 'fpext x'): ow = {'float': 32, 'double': 64}.get(o.split()[-1], 80); x = s.fp(t[3], ow); r = F.rnd(x[2], ow, x[1]) if x[0] == 'f' else x
            elif o == 'select': return s.fp(t[4], w) if s.ev(t[3]) & 1 else s.fp(t[5], w)
            else: return F.dec(s.ev(t), w)
            if ow == w: return r
            if ow in (32, 64) and w in (32, 64): return F.dec(F.enc(r, ow) | (s.junk(t) << 32 if w == 64 else 0), w)
            return F.rnd(Fraction(s.junk(('fpj', t)) & 0xffffff), w)
        if k in ('c', 'reg', 'ins'): return F.dec(s.ev(t), w)
        if k in ('junk', 'A'): return F.rnd(Fraction(s.junk(('fpj', t)) & 0xffffff), w)
        raise Unknown('floating-point term %s' % k)
