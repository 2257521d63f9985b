"""Abstract machine for the assembly text that the compiler prints.

A line of AT&T assembly acts on an abstract machine state whose registers hold
terms (see absint.py) over the operands' values.  Nothing is executed: the text
is the constant templates of the code generator, with placeholders where the
generator prints values that are not constant."""
import re

I8 = {}
REG = {}
for a, l in (('rax', ('al', 'ax', 'eax', 'ah')), ('rcx', ('cl', 'cx', 'ecx', 'ch')), ('rdx', ('dl', 'dx', 'edx', 'dh')), ('rbx', ('bl', 'bx', 'ebx', 'bh'))):
    REG[a] = (a, 64, 0); REG[l[0]] = (a, 8, 0); REG[l[1]] = (a, 16, 0); REG[l[2]] = (a, 32, 0); REG[l[3]] = (a, 8, 8)
for a, l in (('rsi', ('sil', 'si', 'esi')), ('rdi', ('dil', 'di', 'edi')), ('rbp', ('bpl', 'bp', 'ebp')), ('rsp', ('spl', 'sp', 'esp'))):
    REG[a] = (a, 64, 0); REG[l[0]] = (a, 8, 0); REG[l[1]] = (a, 16, 0); REG[l[2]] = (a, 32, 0)
for n in range(8, 16):
    REG['r%d' % n] = ('r%d' % n, 64, 0)
    for x, w in (('b', 8), ('w', 16), ('d', 32)): REG['r%d%s' % (n, x)] = ('r%d' % n, w, 0)
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}


def C(n): return ('c', n)


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def op(o, w, *a):
    return ('op', o, w) + a


def add(a, b):
    if b == C(0): return a
    if a == C(0): return b
    if a[0] == 'c' and b[0] == 'c': return C(sx(a[1] + b[1], 64))
    return op('add', 64, a, b)


def trunc(t, w):
    if w >= 64: return t
    if t[0] == 'c': return C(sx(t[1], w))
    return op('trunc', w, t)


def ext(t, w, signed, to=64):
    """the low w bits of t, extended"""
    if w >= to: return t
    if t[0] == 'c': return C(sx(t[1], w) if signed else t[1] & ((1 << w) - 1))
    return op('sext' if signed else 'zext', to, trunc(t, w), w)


class Poison(Exception): pass


class M:
    __slots__ = ('regs', 'flags', 'st', 'cw', 'slots', 'sp', 'smem', 'eff', 'cond', 'wait', 'poison', 'n', 'fin', 'im')

    def __init__(s):
        s.regs, s.flags, s.st, s.cw, s.slots, s.sp, s.smem = {}, None, (), ('cw',), (), 0, {}
        s.eff, s.cond, s.wait, s.poison, s.n, s.fin, s.im = (), (), None, None, 0, False, ()

    def copy(s):
        m = M()
        m.regs = dict(s.regs); m.smem = dict(s.smem)
        for k in ('flags', 'st', 'cw', 'slots', 'sp', 'eff', 'cond', 'wait', 'poison', 'n', 'fin', 'im'): setattr(m, k, getattr(s, k))
        return m

    def freeze(s):
        return (tuple(sorted(s.regs.items())), s.flags, s.st, s.cw, s.slots, s.sp, tuple(sorted(s.smem.items())), s.eff, s.cond, s.wait, s.poison, s.n, s.fin, s.im)

    @staticmethod
    def thaw(t):
        m = M()
        m.regs = dict(t[0]); m.flags, m.st, m.cw, m.slots, m.sp = t[1:6]
        m.smem = dict(t[6]); m.eff, m.cond, m.wait, m.poison, m.n, m.fin, m.im = t[7:]
        return m

    def junk(s):
        s.n += 1
        return ('junk', s.n)

    def get(s, r):
        v = s.regs.get(r)
        if v is None: v = s.regs[r] = ('junk', r)
        return v

    def clobber(s):
        s.regs = {k: v for k, v in s.regs.items() if k in ('rbp', 'rbx')}     # kept by called functions
        s.flags = None
        s.n += 1
        for r in ('rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'): s.regs[r] = ('junk', '%s.%d' % (r, s.n))
        for i in range(16): s.regs['xmm%d' % i] = ('junk', 'xmm%d.%d' % (i, s.n))


PH = re.compile('\x01(\\d+)\x02')
SYM = re.compile('^"?\x01(\\d+)\x02"?(@[A-Za-z]+)?$')


class Exec:
    """executes lines on the threads of a machine"""

    apart = False      # what is stored to never overlaps what is read

    def __init__(s, tab): s.tab = tab      # placeholders: ('I', term) ('S', term) ('O', kind, node) ('B', kind, node)

    def lines(s, threads, text):
        out = list(threads)
        for l in text.split('\n'):
            for ins in l.split(';'):
                ins = ins.strip()
                if not ins: continue
                nxt = []
                m = re.match(r'^([^\s:"]+):\s*(.*)$', ins)
                if m and not m.group(1).startswith('%'):
                    lab = m.group(1)
                    for t in out:
                        if t.wait is not None and (t.wait == lab or t.wait == lab + 'f'):
                            t = t.copy(); t.wait = None
                        nxt.append(t)
                    out = nxt
                    ins = m.group(2)
                    if not ins: continue
                    nxt = []
                for t in out:
                    if t.wait is not None or t.poison: nxt.append(t); continue
                    t = t.copy()
                    try: nxt.extend(s.one(t, ins))
                    except Poison as e:
                        t.poison = '%s: %s' % (ins, e); nxt.append(t)
                out = nxt
                if len(out) > 16: raise Poison('too many branches')
        return out

    # ---- operands
    def parse(s, ins):
        m = re.match(r'^(lock |data16 )?(\.?[a-z][a-z0-9]*)\s*(.*)$', ins, re.S)
        if not m: raise Poison('not understood')
        ops, d, cur = [], 0, ''
        for c in m.group(3):
            if c == '(': d += 1
            if c == ')': d -= 1
            if c == ',' and d == 0: ops.append(cur.strip()); cur = ''
            else: cur += c
        if cur.strip(): ops.append(cur.strip())
        return (m.group(1) or '') + m.group(2), ops

    def num(s, x):
        """sum of numbers and placeholders"""
        r = C(0)
        for part in re.findall(r'[+-]?[^+-]+', x):
            neg = part[0] == '-'
            p = part.lstrip('+-').strip()
            m = PH.fullmatch(p)
            y = SYM.match(p)
            if m and s.tab[int(m.group(1))][0] == 'I': v = s.tab[int(m.group(1))][1]
            elif y and s.tab[int(y.group(1))][0] == 'S': v = ('sym', s.tab[int(y.group(1))][1], y.group(2) or '')
            elif m: raise Poison('operand %s' % (s.tab[int(m.group(1))],))
            else:
                try: v = C(sx(int(p, 0), 64))
                except ValueError: raise Poison('operand %s' % p)
            if neg: v = C(-v[1]) if v[0] == 'c' else op('sub', 64, C(0), v)
            r = add(r, v)
        return r

    def imm(s, x):
        m = PH.fullmatch(x[1:])
        if m:
            e = s.tab[int(m.group(1))]
            if e[0] == 'O': return ('PA', e[2], 'imm') if e[1] == 'p' else ('junk', 'immofs')
        return s.num(x[1:])

    def isreg(s, o): return o.startswith('%')

    def reg(s, o):
        n = o[1:]
        if n in REG: return REG[n]
        m = re.match(r'^([PQ]\d+)([qd])?$', n)
        if m: return (m.group(1), 32 if m.group(2) == 'd' else 64, 0)
        if re.match(r'^xmm\d+$', n): return (n, 128, 0)
        raise Poison('register %s' % o)

    def addr(s, t, o):
        m = re.match(r'^(.*)\(([^()]*)\)$', o, re.S)
        if not m: raise Poison('operand %s' % o)
        ofs, base = m.group(1).strip(), m.group(2).strip()
        if ',' in base: raise Poison('index')
        b = PH.fullmatch(base)
        if b:
            e = s.tab[int(b.group(1))]
            if e[0] != 'B':
                if e[0] == 'S': return add(('sreg', e[1]), s.num(ofs) if ofs else C(0))
                raise Poison('base')
            ph = [int(x) for x in PH.findall(ofs)]
            mine = [k for k in ph if s.tab[k][0] == 'O']
            if len(mine) != 1: raise Poison('mixed memory operand')
            if s.tab[mine[0]][1:] != e[1:]: return ('junk', 'mixed')
            rest = ofs.replace('\x01%d\x02' % mine[0], '').strip('+ ')
            rest = re.sub(r'\+\+', '+', rest)
            a = ('MA' if e[1] == 'm' else 'PA', e[2])
            return add(a, s.num(rest)) if rest else a
        if base == '%rip': return s.num(ofs)
        if base == '%rsp':
            if t.sp is None: raise Poison('rsp')
            k = s.num(ofs) if ofs else C(0)
            if k[0] != 'c': raise Poison('rsp offset')
            return ('sp', t.sp + k[1])
        r, w, _ = s.reg(base)
        if w != 64: raise Poison('base width')
        if r == 'rbp': b = ('rbp',)
        else: b = t.get(r)
        return add(b, s.num(ofs)) if ofs else b

    def load(s, t, a, sz, cls='i'):
        if a[0] == 'sp':
            v = t.smem.get(a[1])
            if v and v[1] == sz: return v[0]
            if v and cls == 'i' and v[1] > sz: return v[0]     # little endian: low part
            for k, (x, n) in t.smem.items():
                if k < a[1] and k + n >= a[1] + sz and cls == 'i': return op('lshr', 64, x, C(8 * (a[1] - k)))
            if v and v[1] < sz and t.smem.get(a[1] + v[1]): return ('cat', v[0], v[1], t.smem[a[1] + v[1]][0])
            return t.junk()
        for e in reversed(t.eff):
            if e[0] == 'store':
                if e[1] == a and e[2] == sz: return e[3]
                if s.apart: continue
                return t.junk()
            if e[0] in ('call',): return t.junk()
        return ('M', a, sz)

    def store(s, t, a, sz, v):
        if a[0] == 'sp':
            for k in list(t.smem):
                n = t.smem[k][1]
                if k < a[1] + sz and a[1] < k + n:
                    x = t.smem.pop(k)
                    if k == a[1] and n > sz: t.smem[k + sz] = (op('lshr', 64, x[0], C(8 * sz)), n - sz)
                    elif k < a[1] and k + n == a[1] + sz: t.smem[k] = (x[0], a[1] - k)
            t.smem[a[1]] = (v, sz)
        else: t.eff += (('store', a, sz, v),)

    def rd(s, t, o, w, wide=False):
        if o[0] == '$':
            v = s.imm(o)
            if w == 64 and v[0] not in ('PA', 'sym') and "'sym'" not in repr(v) and not wide and v not in t.im: t.im += (v,)
            return v
        if s.isreg(o):
            r, rw, sh = s.reg(o)
            if r == 'rsp': raise Poison('rsp')
            v = t.get(r)
            if sh: return op('lshr', 64, v, C(8))
            return v
        return s.load(t, s.addr(t, o), w // 8)

    def wr(s, t, o, w, v):
        if s.isreg(o):
            r, rw, sh = s.reg(o)
            if r in ('rsp', 'rbp'): raise Poison('frame register')
            if r.startswith('xmm') or r[0] == 'Q': raise Poison('xmm')
            if w == 64: t.regs[r] = v
            elif w == 32: t.regs[r] = v if v[0] == 'PA' else ext(v, 32, False)
            else: t.regs[r] = ('ins', t.get(r), v, w, sh)
            return
        s.store(t, s.addr(t, o), w // 8, v)

    def width(s, mn, ops, base):
        """operand width from suffix or registers"""
        suf = mn[len(base):]
        if suf in SUF: return SUF[suf]
        if suf: raise Poison('suffix')
        for o in reversed(ops):
            if s.isreg(o):
                w = s.reg(o)[1]
                if w != 128: return w
        raise Poison('width')

    def samew(s, ops, w):
        for o in ops:
            if s.isreg(o):
                rw = s.reg(o)[1]
                if rw != w and rw != 128: raise Poison('operand widths')

    CCI = {'e': ('icmp eq', 1), 'z': ('icmp eq', 1), 'ne': ('icmp ne', 1), 'nz': ('icmp ne', 1), 'l': ('icmp slt', 1), 'le': ('icmp sle', 1), 'g': ('icmp sgt', 1), 'ge': ('icmp sge', 1),
           'b': ('icmp ult', 1), 'be': ('icmp ule', 1), 'a': ('icmp ugt', 1), 'ae': ('icmp uge', 1), 's': ('s', 1), 'ns': ('ns', 1)}
    CCF = {'a': 'ogt', 'ae': 'oge', 'b': 'ult', 'be': 'ule', 'e': 'ueq', 'ne': 'one', 'p': 'uno', 'np': 'ord', 'z': 'ueq', 'nz': 'one', 'nb': 'oge', 'nbe': 'ogt', 'nc': 'oge', 'c': 'ult'}

    def cc(s, t, c):
        """condition term (i1)"""
        f = t.flags
        if f is None: raise Poison('flags are not known')
        if f[0] == 'cmp':
            _, w, a, b = f
            if c not in s.CCI: raise Poison('condition ' + c)
            p = s.CCI[c][0]
            if p in ('s', 'ns'):
                if b != C(0): raise Poison('sign flag')
                return op('icmp slt' if p == 's' else 'icmp sge', w, a, C(0))
            return op(p, w, a, b)
        if f[0] == 'fcmp':
            if c not in s.CCF: raise Poison('condition ' + c)
            return op('fcmp ' + s.CCF[c], f[1], f[2], f[3])
        raise Poison('flags')

    def fp(s, t, o, sz):
        """scalar FP operand"""
        if s.isreg(o): return t.get(s.reg(o)[0])
        return s.load(t, s.addr(t, o), sz, 'f')

    # ---- one instruction
    def one(s, t, ins):
        mn, ops = s.parse(ins)
        lock = mn.startswith('lock ')
        if lock: mn = mn[5:]
        if mn.startswith('cmpxchg'): return s.cmpxchg(t, mn, ops, lock)
        if mn == 'data16 lea' and ops[0].endswith('@tlsgd(%rip)') and ops[1] == '%rdi':
            t.regs['rdi'] = ('tlsgd', s.num(ops[0][:-len('@tlsgd(%rip)')])); return [t]
        if mn in ('.value', 'rex64'): return [t]
        if mn == 'call' and ops[0] == '__tls_get_addr@PLT' and t.get('rdi')[0] == 'tlsgd':
            v = t.get('rdi')[1]
            t.clobber(); t.regs['rax'] = ('tlsaddr', v); return [t]
        if mn.startswith('data16 '): raise Poison('instruction')
        f = getattr(s, 'i_' + mn, None)
        if f: return f(t, ops) or [t]
        for base, h in s.GEN:
            if mn == base or (mn[:-1] == base and mn[-1] in SUF): return h(s, t, base, mn, ops) or [t]
        m = re.match(r'^(set|cmov|j)([a-z]+)$', mn)
        if m and (m.group(2) in s.CCI or m.group(2) in s.CCF):
            c = m.group(2)
            if m.group(1) == 'set':
                s.wr(t, ops[0], 8, op('zext', 64, s.cc(t, c), 1)); return [t]
            if m.group(1) == 'cmov':
                w = s.width('', ops, ''); s.samew(ops, w)
                k = s.cc(t, c)
                s.wr(t, ops[1], w, op('select', 64, k, s.rd(t, ops[0], w), s.rd(t, ops[1], w))); return [t]
            k = s.cc(t, c)
            a = t; b = t.copy()
            a.cond += ((k, False),)
            b.cond += ((k, True),); b.wait = ops[0]
            return [a, b]
        raise Poison('instruction')

    def cmpxchg(s, t, mn, ops, lock):
        w = s.width(mn, ops[:1], 'cmpxchg')
        if s.isreg(ops[1]): raise Poison('cmpxchg')
        a = s.addr(t, ops[1])
        v = s.load(t, a, w // 8)
        ax = t.get('rax')
        k = op('icmp eq', w, ax, v)
        new = s.rd(t, ops[0], w)
        e, n = t, t.copy()
        e.cond += ((k, True),); n.cond += ((k, False),)
        if not lock: e.eff += (('not atomic',),); n.eff += (('not atomic',),)
        e.flags = n.flags = ('cmp', w, ax, v)
        s.store(e, a, w // 8, new)
        s.wr(n, {8: '%al', 16: '%ax', 32: '%eax', 64: '%rax'}[w], w, v)
        return [e, n]

    def i_jmp(s, t, ops): t.wait = ops[0]

    def g_mov(s, t, base, mn, ops):
        if ops[0] == '%fs:0': s.wr(t, ops[1], 64, ('fs',)); return
        if any(s.isreg(o) and s.reg(o)[1] == 128 or re.match(r'^%Q', o) for o in ops): return s.movx(t, mn, ops)
        w = s.width(mn, ops, base); s.samew(ops, w)
        v = s.rd(t, ops[0], w, s.isreg(ops[1]))
        s.wr(t, ops[1], w, v)

    def movx(s, t, mn, ops):
        if mn != 'movq': raise Poison('xmm')
        a, b = ops
        if s.isreg(a) and s.isreg(b):
            ra, rb = s.reg(a), s.reg(b)
            if ra[1] == 128 and rb[1] == 64: t.regs[rb[0]] = ('bits', t.get(ra[0]), 64); return
            if rb[1] == 128: t.regs[rb[0]] = t.get(ra[0]) if ra[1] == 128 else ('fbits', 64, t.get(ra[0])); return
        raise Poison('movq')

    def i_movd(s, t, ops):
        a, b = ops
        ra, rb = s.reg(a), s.reg(b)
        if ra[1] == 128: s.wr(t, b, 32, ('bits', t.get(ra[0]), 32))
        else: t.regs[rb[0]] = ('fbits', 32, t.get(ra[0]))

    def i_movabs(s, t, ops): s.wr(t, ops[1], 64, s.rd(t, ops[0], 64, True))
    i_movabsq = i_movabs

    def ext_(s, t, ops, fw, tw, sg):
        if s.isreg(ops[0]):
            if s.reg(ops[0])[1] != fw: raise Poison('operand widths')
        if s.reg(ops[1])[1] != tw: raise Poison('operand widths')
        s.wr(t, ops[1], tw, ext(s.rd(t, ops[0], fw), fw, sg))

    def i_movzbl(s, t, o): s.ext_(t, o, 8, 32, False)
    def i_movsbl(s, t, o): s.ext_(t, o, 8, 32, True)
    def i_movzwl(s, t, o): s.ext_(t, o, 16, 32, False)
    def i_movswl(s, t, o): s.ext_(t, o, 16, 32, True)
    def i_movzbq(s, t, o): s.ext_(t, o, 8, 64, False)
    def i_movsbq(s, t, o): s.ext_(t, o, 8, 64, True)
    def i_movzwq(s, t, o): s.ext_(t, o, 16, 64, False)
    def i_movswq(s, t, o): s.ext_(t, o, 16, 64, True)
    def i_movslq(s, t, o): s.ext_(t, o, 32, 64, True)
    def i_cltq(s, t, o): t.regs['rax'] = ext(t.get('rax'), 32, True)

    def i_lea(s, t, ops): s.wr(t, ops[1], s.reg(ops[1])[1], s.addr(t, ops[0]))
    i_leaq = i_lea

    def g_alu(s, t, base, mn, ops):
        if base == 'imul' and len(ops) == 1: raise Poison('imul')
        w = s.width(mn, ops, base); s.samew(ops, w)
        if ops[1] == '%rsp':
            if ops[0][0] != '$' or base not in ('add', 'sub'): raise Poison('rsp')
            k = s.imm(ops[0])
            if k[0] != 'c': raise Poison('rsp')
            t.sp += k[1] if base == 'add' else -k[1]
            if base == 'add': t.smem = {a: v for a, v in t.smem.items() if a >= t.sp}
            t.flags = None
            return
        if base in ('xor', 'sub') and ops[0] == ops[1]: v = C(0)
        else: v = op({'imul': 'mul'}.get(base, base), 64, s.rd(t, ops[1], w), s.rd(t, ops[0], w))
        if s.isreg(ops[1]) and s.reg(ops[1])[2]:
            r, _, sh = s.reg(ops[1])       # %ah with an immediate
            if ops[0][0] != '$' or base != 'or': raise Poison('high byte')
            t.regs[r] = op('or', 64, t.get(r), C(s.imm(ops[0])[1] << 8))
        else: s.wr(t, ops[1], w, v)
        t.flags = ('cmp', w, v, C(0)) if base in ('and', 'or', 'xor') else None

    def g_un(s, t, base, mn, ops):
        w = s.width(mn, ops, base)
        v = s.rd(t, ops[0], w)
        r = {'neg': op('sub', 64, C(0), v), 'not': op('xor', 64, v, C(-1)), 'inc': add(v, C(1)), 'dec': add(v, C(-1))}[base]
        s.wr(t, ops[0], w, r)
        if base != 'not': t.flags = None

    def g_sh(s, t, base, mn, ops):
        if len(ops) == 1: ops = ['$1'] + ops
        w = s.width(mn, ops[1:], base)
        c = t.get('rcx') if ops[0] == '%cl' else s.imm(ops[0]) if ops[0][0] == '$' else None
        if c is None: raise Poison('shift count')
        v = s.rd(t, ops[1], w)
        if w < 32 and not s.isreg(ops[1]): pass
        r = op({'shl': 'shl', 'sal': 'shl', 'shr': 'lshr', 'sar': 'ashr'}[base], w, trunc(v, w), c)
        s.wr(t, ops[1], w, ext(r, w, base == 'sar') if w < 64 else r)
        t.flags = None

    def g_cmp(s, t, base, mn, ops):
        w = s.width(mn, ops, base); s.samew(ops, w)
        a, b = s.rd(t, ops[1], w), s.rd(t, ops[0], w)
        if base == 'cmp': t.flags = ('cmp', w, a, b)
        elif ops[0] == ops[1]: t.flags = ('cmp', w, a, C(0))
        else: t.flags = ('cmp', w, op('and', 64, a, b), C(0))

    def i_xchg(s, t, ops):
        w = s.width('', ops, ''); s.samew(ops, w)
        a, b = s.rd(t, ops[0], w), s.rd(t, ops[1], w)
        s.wr(t, ops[1], w, a); s.wr(t, ops[0], w, b)

    def i_cqo(s, t, ops): t.regs['rdx'] = ('signof', t.get('rax'), 64)
    def i_cdq(s, t, ops): t.regs['rdx'] = ('signof', t.get('rax'), 32)
    i_cqto = i_cqo
    i_cltd = i_cdq

    def g_div(s, t, base, mn, ops):
        w = s.width(mn, ops, base)
        d = s.rd(t, ops[0], w)
        hi, lo = t.get('rdx'), t.get('rax')
        sg = base == 'idiv'
        if sg: ok = hi[0] == 'signof' and hi[2] == w and hi[1] == lo
        else: ok = hi == C(0)
        if not ok: q = r = ('junk', 'the upper half of the dividend is not the extension of the lower')
        else:
            q = op('sdiv' if sg else 'udiv', w, trunc(lo, w), trunc(d, w))
            r = op('srem' if sg else 'urem', w, trunc(lo, w), trunc(d, w))
            if w < 64: q, r = ext(q, w, sg), ext(r, w, sg)
        t.regs['rax'] = ext(q, 32, False) if w == 32 and q[0] != 'junk' else q
        t.regs['rdx'] = ext(r, 32, False) if w == 32 and r[0] != 'junk' else r
        t.flags = None

    def i_push(s, t, ops):
        r, w, _ = s.reg(ops[0])
        if w != 64: raise Poison('push')
        v = t.get(r)
        t.sp -= 8
        s.store(t, ('sp', t.sp), 8, v)

    def i_pop(s, t, ops):
        r, w, _ = s.reg(ops[0])
        t.regs[r] = s.load(t, ('sp', t.sp), 8)
        t.sp += 8
        t.smem = {a: v for a, v in t.smem.items() if a >= t.sp}

    # ---- SSE
    def fmov(s, t, ops, sz):
        a, b = ops
        if s.isreg(b):
            v = s.fp(t, a, sz)
            t.regs[s.reg(b)[0]] = ('ss', v) if sz == 4 and s.isreg(a) else v
        else: s.store(t, s.addr(t, b), sz, t.get(s.reg(a)[0]))
    def i_movss(s, t, o): s.fmov(t, o, 4)
    def i_movsd(s, t, o): s.fmov(t, o, 8)
    def i_movaps(s, t, o):
        if not all(map(s.isreg, o)): raise Poison('movaps')
        t.regs[s.reg(o[1])[0]] = t.get(s.reg(o[0])[0])
    i_movapd = i_movaps

    def i_movups(s, t, o): s.fmov(t, o, 16)

    def fx(s, t, ops, mn):
        a, b = s.reg(ops[0])[0], s.reg(ops[1])[0]
        if a == b: t.regs[b] = ('fzero',); return
        va, vb = t.get(a), t.get(b)
        for x, y in ((va, vb), (vb, va)):
            if x[0] == 'fbits' and x[2][0] == 'c' and x[2][1] & ((1 << x[1]) - 1) == 1 << (x[1] - 1):
                t.regs[b] = op('fneg', x[1], y); return
        raise Poison(mn)
    def i_xorps(s, t, o): s.fx(t, o, 'xorps')
    i_xorpd = i_xorps
    i_pxor = i_xorps

    def g_farith(s, t, o, sz, ops):
        b = s.reg(ops[1])[0]
        t.regs[b] = op('f' + o, sz, t.get(b), s.fp(t, ops[0], sz // 8))

    def ucomi(s, t, ops, sz):
        t.flags = ('fcmp', sz, t.get(s.reg(ops[1])[0]), s.fp(t, ops[0], sz // 8))
    def i_ucomiss(s, t, o): s.ucomi(t, o, 32)
    def i_ucomisd(s, t, o): s.ucomi(t, o, 64)
    i_comiss, i_comisd = i_ucomiss, i_ucomisd

    def i_cvtss2sd(s, t, o): t.regs[s.reg(o[1])[0]] = op('fcvt', 64, ('from', 32, s.fp(t, o[0], 4)))
    def i_cvtsd2ss(s, t, o): t.regs[s.reg(o[1])[0]] = op('fcvt', 32, ('from', 64, s.fp(t, o[0], 8)))

    def i2f(s, t, ops, mn, fw):
        suf = mn[8:]
        w = SUF[suf] if suf else (s.reg(ops[0])[1] if s.isreg(ops[0]) else None)
        if w not in (32, 64): raise Poison('width')
        s.samew(ops[:1], w)
        t.regs[s.reg(ops[1])[0]] = op('i2f', fw, ext(s.rd(t, ops[0], w), w, True))

    def f2i(s, t, ops, mn, fw):
        suf = mn[9:]
        w = SUF[suf] if suf else s.reg(ops[1])[1]
        s.samew(ops[1:], w)
        s.wr(t, ops[1], w, ext(op('f2i', w, fw, s.fp(t, ops[0], fw // 8)), w, True))

    # ---- x87
    def fpush(s, t, v): t.st = (v,) + t.st

    def fpop(s, t):
        if not t.st: return ('junk', 'x87 stack is empty')
        v = t.st[0]; t.st = t.st[1:]
        return v

    def st_(s, t, k):
        if len(t.st) <= k: return ('junk', 'x87 stack is empty')
        return t.st[k]

    def i_fninit(s, t, o): t.fin = True; t.st = (); t.cw = ('cw',)
    def i_fldt(s, t, o): s.fpush(t, s.load(t, s.addr(t, o[0]), 10, 'f'))
    def i_fldl(s, t, o): s.fpush(t, op('fcvt', 80, ('from', 64, s.load(t, s.addr(t, o[0]), 8, 'f'))))
    def i_flds(s, t, o): s.fpush(t, op('fcvt', 80, ('from', 32, s.load(t, s.addr(t, o[0]), 4, 'f'))))
    def i_fld(s, t, o):
        m = re.match(r'^%st\((\d)\)$', o[0])
        k = 0 if o[0] == '%st' else int(m.group(1)) if m else 99
        if k >= len(t.st): raise Poison('floating-point stack')
        s.fpush(t, t.st[k])
    def i_fld1(s, t, o): s.fpush(t, ('FV', ('fc', 1)))
    def i_fldz(s, t, o): s.fpush(t, ('fzero',))
    def fild(s, t, o, w): s.fpush(t, op('i2f', 80, ext(s.load(t, s.addr(t, o[0]), w // 8), w, True)))
    def i_fildl(s, t, o): s.fild(t, o, 32)
    def i_fildll(s, t, o): s.fild(t, o, 64)
    i_fildq = i_fildll
    def i_filds(s, t, o): s.fild(t, o, 16)

    def fist(s, t, o, w):
        v = s.fpop(t)
        md = 'trunc' if t.cw[0] == 'op' and t.cw[1] == 'or' and t.cw[4] == C(0xc00) else 'round'
        if md == 'round': r = t.junk() if False else ('rounded', v)
        else: r = op('f2i', w, 80, v)
        s.store(t, s.addr(t, o[0]), w // 8, ext(r, w, True))
    def i_fistps(s, t, o): s.fist(t, o, 16)
    def i_fistpl(s, t, o): s.fist(t, o, 32)
    def i_fistpq(s, t, o): s.fist(t, o, 64)
    i_fistpll = i_fistpq

    def i_fstpt(s, t, o): s.store(t, s.addr(t, o[0]), 10, s.fpop(t))
    def i_fstpl(s, t, o): s.store(t, s.addr(t, o[0]), 8, op('fcvt', 64, ('from', 80, s.fpop(t))))
    def i_fstps(s, t, o): s.store(t, s.addr(t, o[0]), 4, op('fcvt', 32, ('from', 80, s.fpop(t))))

    def i_fstp(s, t, o):
        m = re.match(r'^%st\((\d)\)$', o[0])
        if not m: raise Poison('fstp')
        k = int(m.group(1))
        l = list(t.st)
        if len(l) <= k: raise Poison('x87 stack')
        l[k] = l[0]
        t.st = tuple(l[1:])

    def f87(s, t, r):
        """st(1) <- r, pop"""
        t.st = (r,) + t.st[2:]
    def i_faddp(s, t, o): s.f87(t, op('fadd', 80, s.st_(t, 0), s.st_(t, 1)))
    def i_fmulp(s, t, o): s.f87(t, op('fmul', 80, s.st_(t, 0), s.st_(t, 1)))
    # the assembler swaps the names of these two pairs in this syntax
    def i_fsubp(s, t, o): s.f87(t, op('fsub', 80, s.st_(t, 0), s.st_(t, 1)))
    def i_fsubrp(s, t, o): s.f87(t, op('fsub', 80, s.st_(t, 1), s.st_(t, 0)))
    def i_fdivp(s, t, o): s.f87(t, op('fdiv', 80, s.st_(t, 0), s.st_(t, 1)))
    def i_fdivrp(s, t, o): s.f87(t, op('fdiv', 80, s.st_(t, 1), s.st_(t, 0)))
    def i_fchs(s, t, o): t.st = (op('fneg', 80, s.st_(t, 0)),) + t.st[1:]
    def i_fadds(s, t, o): t.st = (op('fadd', 80, s.st_(t, 0), op('fcvt', 80, ('from', 32, s.load(t, s.addr(t, o[0]), 4, 'f')))),) + t.st[1:]

    def i_fxch(s, t, o): a, b = s.st_(t, 0), s.st_(t, 1); t.st = (b, a) + t.st[2:]
    def i_fucomip(s, t, o): t.flags = ('fcmp', 80, s.st_(t, 0), s.st_(t, 1)); s.fpop(t)
    i_fcomip = i_fucomip
    def i_fucomi(s, t, o): t.flags = ('fcmp', 80, s.st_(t, 0), s.st_(t, 1))
    def i_fcmovbe(s, t, o): t.st = (('op', 'select', 80, s.cc(t, 'be'), s.st_(t, 1), s.st_(t, 0)),) + t.st[1:]

    def i_fnstcw(s, t, o): s.store(t, s.addr(t, o[0]), 2, t.cw)

    def i_fldcw(s, t, o):
        v = s.load(t, s.addr(t, o[0]), 2)
        t.cw = s.cwnorm(v)

    def cwnorm(s, v):
        while True:
            if v[0] == 'op' and v[1] in ('zext', 'trunc', 'sext'): v = v[3]
            elif v[0] == 'op' and v[1] == 'or' and v[4][0] == 'c':
                return op('or', 16, s.cwnorm(v[3]), v[4])
            else: return v

    GEN = [('movabs', None)] * 0


def _g(name): return lambda s, t, base, mn, ops: getattr(s, name)(t, base, mn, ops)


Exec.GEN = [(b, _g(g)) for g, l in (('g_mov', ['mov']), ('g_alu', ['add', 'sub', 'and', 'or', 'xor', 'imul']), ('g_un', ['neg', 'not', 'inc', 'dec']),
                                    ('g_sh', ['shl', 'sal', 'shr', 'sar']), ('g_cmp', ['cmp', 'test']), ('g_div', ['div', 'idiv'])) for b in l]
for _o in ('add', 'sub', 'mul', 'div'):
    for _x, _w in (('ss', 32), ('sd', 64)):
        setattr(Exec, 'i_%s%s' % (_o, _x), (lambda o, w: lambda s, t, ops: s.g_farith(t, o, w, ops))(_o, _w))
for _x, _w in (('ss', 32), ('sd', 64)):
    for _s in ('', 'l', 'q'):
        setattr(Exec, 'i_cvtsi2%s%s' % (_x, _s), (lambda n, w: lambda s, t, ops: s.i2f(t, ops, n, w))('cvtsi2%s%s' % (_x, _s), _w))
        setattr(Exec, 'i_cvtt%s2si%s' % (_x, _s), (lambda n, w: lambda s, t, ops: s.f2i(t, ops, n, w))('cvtt%s2si%s' % (_x, _s), _w))
